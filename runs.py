"""What each check runs: harnesses with their bounds, in the quick and the thorough tier.

n: entries of a map whose content and tree shape are arbitrary (every size up to n unless fix=1); k: operations of a
free history; minsts: millions of instructions a path may take; len, plen, seq: longest keys, prefixes and inner sequences; the rest is named in the harness."""

def _r(s): return s.split()

# property -> (build feature, quick runs, thorough runs)
RUNS = {
"C01": ("wit",
  """c01_u8:n=7,fix=0 c01_u16:n=6,fix=0 c01_arr:n=3,fix=0,plen=2 c01_vec:n=3,fix=0,len=2,plen=2 c01_string:n=2,fix=0,len=2,plen=2
     c01_seq:n=4,fix=0,seq=1 c01_prefix:n=3,fix=0,len=2,plen=2 c01_prefix_comp:n=5,fix=0 c01_map_in_map:n=4,fix=0 c01_history:k=3
     c01_u8:n=24,fix=1 c01_vec:n=24,fix=1,len=2,plen=2 c01_prefix_comp:n=40,fix=1""",
  """c01_u8:n=12,fix=0 c01_u16:n=10,fix=0 c01_arr:n=5,fix=0,plen=2 c01_vec:n=4,fix=0,len=3,plen=3 c01_string:n=3,fix=0,len=2,plen=2
     c01_seq:n=6,fix=0,seq=2 c01_prefix:n=4,fix=0,len=2,plen=3 c01_prefix_comp:n=8,fix=0 c01_map_in_map:n=6,fix=0 c01_history:k=5
     c01_u8:n=40,fix=1 c01_vec:n=40,fix=1,len=2,plen=2 c01_prefix_comp:n=80,fix=1"""),
"C02": ("wit",
  """c02_u8:n=8,fix=0 c02_u16:n=6,fix=0 c02_vec:n=3,fix=0,len=2,plen=2 c02_string:n=2,fix=0,len=2,plen=2 c02_seq:n=4,fix=0,seq=1
     c02_honest_u8:n=6,fix=0 c02_honest_vec:n=2,fix=0,len=2,plen=2 c02_honest_prefix:n=3,fix=0,len=2,plen=2
     c02_u8:n=40,fix=1 c02_u16:n=40,fix=1 c02_vec:n=24,fix=1,len=2,plen=2 c02_honest_u8:n=24,fix=1""",
  """c02_u8:n=12,fix=0 c02_u16:n=10,fix=0 c02_vec:n=4,fix=0,len=3,plen=2 c02_string:n=3,fix=0,len=2,plen=2 c02_seq:n=6,fix=0,seq=2
     c02_honest_u8:n=10,fix=0 c02_honest_vec:n=3,fix=0,len=2,plen=2 c02_honest_prefix:n=4,fix=0,len=2,plen=3
     c02_u8:n=76,fix=1 c02_u16:n=100,fix=1 c02_vec:n=40,fix=1,len=2,plen=2 c02_honest_u8:n=40,fix=1"""),
"C03": ("wit",
  """c03_u8:n=7,fix=0 c03_u16:n=6,fix=0 c03_vec:n=3,fix=0,len=2 c03_all_u8:n=10,fix=0 c03_all_vec:n=4,fix=0,len=2
     c03_u8:n=24,fix=1 c03_vec:n=16,fix=1,len=1""",
  """c03_u8:n=12,fix=0 c03_u16:n=9,fix=0 c03_vec:n=4,fix=0,len=3 c03_all_u8:n=12,fix=0 c03_all_vec:n=5,fix=0,len=2
     c03_u8:n=40,fix=1 c03_vec:n=24,fix=1,len=1"""),
"C04": ("wit",
  """c04_u8:n=7,fix=0 c04_u16:n=6,fix=0 c04_vec:n=3,fix=0,len=2
     c04_u16:n=24,fix=1""",
  """c04_u8:n=12,fix=0 c04_u16:n=9,fix=0 c04_vec:n=4,fix=0,len=3
     c04_u16:n=40,fix=1"""),
"C05": ("wit",
  """c05_vec:n=3,fix=0,len=2,plen=2 c05_box:n=3,fix=0,len=2,plen=1 c05_arr:n=4,fix=0,plen=3 c05_string:n=3,fix=0,len=2,plen=2 c05_comp:n=6,fix=0 c05_pair:n=6,fix=0
     c05_vec:n=24,fix=1,len=2,plen=2 c05_comp:n=40,fix=1 c05_pair:n=40,fix=1 c05_string:n=18,fix=1,len=1,plen=2""",
  """c05_vec:n=4,fix=0,len=3,plen=3 c05_box:n=3,fix=0,len=3,plen=3 c05_arr:n=6,fix=0,plen=3 c05_string:n=4,fix=0,len=2,plen=2 c05_comp:n=10,fix=0 c05_pair:n=10,fix=0
     c05_vec:n=40,fix=1,len=2,plen=2 c05_comp:n=80,fix=1 c05_pair:n=80,fix=1 c05_string:n=24,fix=1,len=1,plen=2"""),
"C06": ("map",
  """c06_u8:n=6,fix=0,k=1 c06_vec:n=3,fix=0,k=1,len=2 c06_string:n=2,fix=0,k=1,len=2 c06_pair:n=4,fix=0,k=1 c06_history:k=3 c06_ranked:n=3,k=4 c06_drain:n=5,fix=1,free=1 c06_collect:n=4
     c06_tag:n=4,fix=0,k=1 c06_long:n=64 c06_long_vec:n=40 c06_u8:n=24,fix=1,k=1
     c06_peeked:n=4,fix=0,k=1 c06_peeked:n=2,fix=0,k=2 c06_collect_loose:n=40 c06_revived:n=3,fix=0,k=1 c06_huge:n=1100,minsts=500""",
  """c06_u8:n=10,fix=0,k=1 c06_u8:n=5,fix=0,k=2 c06_vec:n=4,fix=0,k=1,len=2 c06_string:n=3,fix=0,k=1,len=2 c06_pair:n=5,fix=0,k=1 c06_history:k=4 c06_ranked:n=3,k=6 c06_drain:n=6,fix=1,free=2 c06_drain:n=12,fix=1,free=0 c06_collect:n=5
     c06_tag:n=6,fix=0,k=1 c06_long:n=300 c06_long_vec:n=100 c06_u8:n=60,fix=1,k=1
     c06_peeked:n=7,fix=0,k=1 c06_peeked:n=3,fix=0,k=2 c06_collect_loose:n=300 c06_revived:n=5,fix=0,k=1 c06_huge:n=3000,minsts=1000"""),
"C07": ("map",
  """c07_u8:n=5,fix=0,k=1 c07_vec:n=2,fix=0,k=1,len=2 c07_seq:n=3,fix=0,k=1,seq=1 c07_history:k=2 c07_ranked:n=3,k=3 c07_drain:n=5,fix=1,free=1 c07_prefix:n=4,fix=0
     c07_deep:n=3,fix=0,seq=1,k=2 c07_reference_write:n=3,fix=0 c07_tree_reference_write:n=3,fix=0
     c07_long:n=64
     c07_peeked:n=4,fix=0,k=1 c07_peeked:n=2,fix=0,k=2 c07_peeked_seq:n=3,fix=0,seq=1,k=1 c07_huge:n=600,minsts=500""",
  """c07_u8:n=10,fix=0,k=1 c07_u8:n=4,fix=0,k=2 c07_vec:n=3,fix=0,k=1,len=2 c07_seq:n=4,fix=0,k=1,seq=2 c07_history:k=3 c07_ranked:n=3,k=5 c07_drain:n=6,fix=1,free=1 c07_drain:n=12,fix=1,free=0
     c07_prefix:n=6,fix=0 c07_deep:n=4,fix=0,seq=1,k=3 c07_reference_write:n=6,fix=0 c07_tree_reference_write:n=6,fix=0
     c07_long:n=200
     c07_peeked:n=7,fix=0,k=1 c07_peeked:n=3,fix=0,k=2 c07_peeked_seq:n=4,fix=0,seq=2,k=1 c07_huge:n=3000,minsts=1000"""),
"C08": ("map",
  """c08_short:k=4 c08_shapes:n=7,fix=1,k=1 c08_long:n=128,ins=0,del=0,seed=1,part=20,absent=1 c08_long:n=32,ins=1,del=1,seed=1,part=50,absent=1
     c08_long:n=32,ins=2,del=2,seed=2,part=80,absent=1 c08_long:n=32,ins=3,del=3,seed=3,part=100,absent=1 c08_long:n=128,ins=4,del=4,seed=4,part=30,absent=1
     c08_filled:n=100,ins=0,seed=1,part=30 c08_filled:n=64,ins=4,seed=1,part=50""",
  """c08_short:k=5 c08_shapes:n=10,fix=0,k=1 c08_shapes:n=6,fix=0,k=2 c08_long:n=100,ins=0,del=0,seed=1,part=50,absent=1 c08_long:n=100,ins=1,del=1,seed=1,part=50,absent=1
     c08_long:n=100,ins=2,del=2,seed=2,part=80,absent=1 c08_long:n=100,ins=3,del=3,seed=3,part=100,absent=1 c08_long:n=100,ins=4,del=4,seed=4,part=30,absent=1
     c08_long:n=60,ins=4,del=1,seed=5,part=60,absent=1 c08_long:n=60,ins=4,del=2,seed=6,part=60,absent=1 c08_long:n=60,ins=0,del=4,seed=7,part=90,absent=1
     c08_long:n=300,ins=4,del=2,seed=1,part=20,absent=1 c08_long:n=300,ins=0,del=1,seed=1,part=60,absent=1
     c08_filled:n=500,ins=1,seed=1,part=50 c08_filled:n=300,ins=4,seed=3,part=80"""),
"C09": ("map",
  """c09_step:n=5,fix=0,k=1 c09_history:k=3 c09_views:n=4,fix=0,seq=1,len=1
     c09_long:n=40""",
  """c09_step:n=8,fix=0,k=1 c09_step:n=4,fix=0,k=2 c09_history:k=4 c09_views:n=6,fix=0,seq=1,len=2
     c09_long:n=100"""),
"C10": ("map",
  """c10_u8:n=6,fix=0,k=1 c10_vec:n=3,fix=0,k=0,len=2
     c10_tag:n=4,fix=0,k=1 c10_long:n=64
     c10_adaptors:n=5,fix=0 c10_huge:n=1100,minsts=500""",
  """c10_u8:n=10,fix=0,k=1 c10_u8:n=5,fix=0,k=2 c10_vec:n=4,fix=0,k=0,len=2
     c10_tag:n=6,fix=0,k=1 c10_long:n=300
     c10_adaptors:n=8,fix=0 c10_huge:n=3000,minsts=1000"""),
"C11": ("map",
  """c11_u8:n=5,fix=0,k=1 c11_vec:n=2,fix=0,k=1,len=1 c11_default:n=4,fix=0 c11_reference_write:n=3,fix=0
     c11_tag:n=4,fix=0,k=1""",
  """c11_u8:n=9,fix=0,k=1 c11_u8:n=3,fix=0,k=2 c11_vec:n=3,fix=0,k=1,len=2 c11_default:n=8,fix=0 c11_reference_write:n=6,fix=0
     c11_tag:n=6,fix=0,k=1"""),
"C12": ("map",
  """c12_pair:n=6,fix=0 c12_comp:n=6,fix=0 c12_vec:n=3,fix=0,len=2,plen=2 c12_box:n=3,fix=0,len=2,plen=2 c12_string:n=3,fix=0,len=2,plen=2 c12_arr:n=4,fix=0,plen=2""",
  """c12_pair:n=12,fix=0 c12_comp:n=10,fix=0 c12_vec:n=4,fix=0,len=3,plen=3 c12_box:n=3,fix=0,len=3,plen=3 c12_string:n=4,fix=0,len=2,plen=2 c12_arr:n=6,fix=0,plen=2"""),
"C13": ("store",
  """c13_s1:k=3 c13_s2:k=3 c13_s3:k=3 c13_u16:k=3 c13_vec:k=2,len=1 c13_string:k=2,len=1 c13_long1:k=5,keys=2 c13_long2:k=7,keys=2 c13_long3:k=7,keys=2 c13_long5:k=12,keys=1
     c13_many1:n=300 c13_many3:n=300 c13_many300:n=700 c13_stored:k=2 c13_revived:k=5,more=4""",
  """c13_s1:k=4 c13_s2:k=5 c13_s3:k=4 c13_u16:k=4 c13_vec:k=3,len=2 c13_string:k=3,len=1 c13_long1:k=6,keys=3 c13_long2:k=8,keys=3 c13_long3:k=10,keys=2 c13_long5:k=12,keys=2
     c13_many1:n=600 c13_many3:n=900 c13_many300:n=700 c13_stored:k=3 c13_revived:k=8,more=4"""),
"C14": ("store",
  """c14_s1:k=3 c14_s2:k=3 c14_s3:k=4 c14_u16:k=3 c14_long1:k=4,keys=2 c14_long2:k=6,keys=2 c14_long3:k=7,keys=2 c14_varying:k=3,len=2
     c14_many1:n=300 c14_many2:n=520 c14_stored:k=2""",
  """c14_s1:k=4 c14_s2:k=4 c14_s3:k=5 c14_u16:k=4 c14_long1:k=6,keys=3 c14_long2:k=8,keys=2 c14_long3:k=10,keys=2 c14_varying:k=4,len=2
     c14_many1:n=600 c14_many2:n=1000 c14_stored:k=3"""),
"C15": ("store",
  """c15_u8:n=3,k=2 c15_u32:n=3,k=1 c15_string:n=2,k=1,len=2 c15_vec:n=2,k=1,len=1 c15_seq:n=2,k=1,len=1 c15_by_reference:n=2 c15_revived:n=2,k=0 c15_equality_u8:n=3 c15_equality_vec:n=2,len=2
     c15_out_of_range:n=3 c15_long:n=20
     c15_any_iterator:n=2 c15_steps:n=300
     c15_huge:n=3000,minsts=200""",
  """c15_u8:n=4,k=3 c15_u32:n=4,k=2 c15_string:n=2,k=2,len=2 c15_vec:n=3,k=1,len=2 c15_seq:n=3,k=1,len=2 c15_by_reference:n=3 c15_revived:n=3,k=0 c15_equality_u8:n=5 c15_equality_vec:n=3,len=2
     c15_out_of_range:n=8 c15_long:n=200
     c15_any_iterator:n=3 c15_steps:n=500
     c15_huge:n=8000,minsts=1000"""),
"C16": ("store",
  """c16_maps:n=3,fix=0 c16_maps_vec:n=2,fix=0,len=2 c16_maps_seq:n=2,fix=0,seq=1 c16_seq_u8:n=4,fix=0 c16_seq_vec:n=2,fix=0,len=2 c16_seq_string:n=2,fix=0,len=2
     c16_long:n=24 c16_large:n=30 c16_stored""",
  """c16_maps:n=4,fix=0 c16_maps_vec:n=3,fix=0,len=2 c16_maps_seq:n=3,fix=0,seq=2 c16_seq_u8:n=6,fix=0 c16_seq_vec:n=3,fix=0,len=3 c16_seq_string:n=3,fix=0,len=2
     c16_long:n=40 c16_large:n=60 c16_stored"""),
"C17": ("tree",
  """c17_any:nodes=5,len=1,leak=0 c17_helpers:len=70 c17_pruning:nodes=5,len=1,k=2,leak=0 c17_chain:n=12,len=1
     c17_long:kinds=36 c17_large:height=6,leak=0 c17_large_map:n=40,fix=1""",
  """c17_any:nodes=7,len=2,leak=0 c17_helpers:len=300 c17_pruning:nodes=6,len=1,k=2,leak=0 c17_chain:n=60,len=1
     c17_long:kinds=36 c17_large:height=7,leak=0 c17_large_map:n=100,fix=1"""),
"C18": ("tree",
  """c18_any:nodes=5,len=1,leak=1 c18_lengths:kinds=19 c18_chain:n=12,len=1 c18_witness:n=3,fix=0,len=1
     c18_large:height=6,leak=1 c18_large_map:n=40,fix=1""",
  """c18_any:nodes=7,len=2,leak=1 c18_lengths:kinds=19 c18_chain:n=60,len=1 c18_witness:n=6,fix=0,len=1
     c18_large:height=7,leak=1 c18_large_map:n=100,fix=1"""),
"C19": ("values",
  """c19_numbers c19_bytes:len=3 c19_arrays c19_principal:plen=30 c19_nat c19_wrappers:len=2,plen=2 c19_wrapped_map:n=3,fix=0
     c19_long:len=1018 c19_nat_big""",
  """c19_numbers c19_bytes:len=8 c19_arrays c19_principal:plen=29 c19_principal:plen=30 c19_nat c19_wrappers:len=5,plen=5 c19_wrapped_map:n=5,fix=0
     c19_long:len=1018 c19_nat_big"""),
"C20": ("values",
  """c20_unsigned c20_signed c20_bytes:len=3 c20_arrays c20_principal:plen=3 c20_principal:plen=30 c20_wrappers:len=2 c20_nonnull c20_prefix_vec:len=2,three=1 c20_prefix_box:len=2,three=1 c20_prefix_string:len=1,three=1
     c20_prefix_arrays:len=3,three=0 c20_prefix_default c20_exposed:len=2,plen=3
     c20_long:len=1018 c20_long_prefix:len=1018""",
  """c20_unsigned c20_signed c20_bytes:len=6 c20_arrays c20_principal:plen=6 c20_principal:plen=30 c20_wrappers:len=4 c20_nonnull c20_prefix_vec:len=3,three=1 c20_prefix_box:len=3,three=1 c20_prefix_string:len=2,three=1
     c20_prefix_arrays:len=4,three=1 c20_prefix_default c20_exposed:len=4,plen=6
     c20_long:len=1018 c20_long_prefix:len=1018"""),
"C21": ("group", """c21_views:n=3,fix=0,deep=2,len=0,k=2
     c21_big:kinds=10
     c21_deep:depth=150""", """c21_views:n=4,fix=0,deep=2,len=0,k=2 c21_views:n=3,fix=0,deep=3,len=1,k=2
     c21_big:kinds=10
     c21_deep:depth=400"""),
"C22": ("group", """c22_witness:n=3,fix=0,deep=2,len=0,k=2 c22_supplied:n=3,fix=0,deep=2,len=0
     c22_big:kinds=10
     c22_deep:depth=150""", """c22_witness:n=4,fix=0,deep=2,len=0,k=2 c22_witness:n=3,fix=0,deep=3,len=1,k=2 c22_supplied:n=4,fix=0,deep=2,len=0 c22_supplied:n=3,fix=0,deep=3,len=1
     c22_big:kinds=10
     c22_deep:depth=400"""),
"C23": ("group", """c23_orders:n=3,fix=0,deep=2,len=0 c23_conflicts:n=3,fix=0,deep=2,len=1 c23_types:n=2,fix=0,deep=2,len=0 c23_leaves
     c23_big:kinds=10
     c23_deep:depth=150""",
        """c23_orders:n=4,fix=0,deep=3,len=1 c23_conflicts:n=4,fix=0,deep=3,len=1 c23_types:n=3,fix=0,deep=3,len=1 c23_leaves
     c23_big:kinds=10
     c23_deep:depth=400"""),
"C24": ("codec",
  """c24_map_cbor:n=3,fix=0 c24_map_candid:n=5,fix=0 c24_map_u16_candid:n=4,fix=0 c24_map_string_cbor:n=2,fix=0,len=1 c24_map_string_candid:n=2,fix=0,len=2 c24_map_vec_candid:n=2,fix=0,len=2
     c24_map_seq_cbor:n=2,fix=0,seq=1 c24_map_seq_candid:n=3,fix=0,seq=2 c24_arrivals_cbor:n=2 c24_arrivals_candid:n=4 c24_arrivals_seq_candid:n=2,seq=1,len=1 c24_arrivals_string_candid:n=2,len=2
     c24_long_cbor:n=3 c24_long_candid:n=12 c24_map_bytes:len=4 c24_seq_cbor:n=2,k=1 c24_seq_candid:n=3,k=1 c24_seq_u32_candid:n=2,k=1 c24_seq_string_cbor:n=2,k=0,len=1
     c24_seq_string_candid:n=2,k=0,len=2 c24_seq_seq_candid:n=2,k=0,len=1 c24_seq_bytes:len=3 c24_paged_cbor:k=2 c24_paged_candid:k=3 c24_paged_u16_candid:k=3 c24_paged_long_cbor:k=3,keys=2
     c24_paged_long_candid:k=6,keys=2
     c24_map_big:kinds=3 c24_map_seq_big:kinds=2,seq=1 c24_seq_big:kinds=10 c24_paged_big:kinds=3
     c24_huge:n=1100,minsts=1000""",
  """c24_map_cbor:n=4,fix=0 c24_map_candid:n=8,fix=0 c24_map_u16_candid:n=7,fix=0 c24_map_string_cbor:n=3,fix=0,len=2 c24_map_string_candid:n=4,fix=0,len=2 c24_map_vec_candid:n=3,fix=0,len=2
     c24_map_seq_cbor:n=3,fix=0,seq=2 c24_map_seq_candid:n=5,fix=0,seq=2 c24_arrivals_cbor:n=3 c24_arrivals_candid:n=5 c24_arrivals_seq_candid:n=3,seq=1,len=2 c24_arrivals_string_candid:n=3,len=2
     c24_long_cbor:n=4 c24_long_candid:n=30 c24_map_bytes:len=5 c24_seq_cbor:n=3,k=1 c24_seq_candid:n=4,k=2 c24_seq_u32_candid:n=3,k=1 c24_seq_string_cbor:n=2,k=1,len=1
     c24_seq_string_candid:n=2,k=1,len=2 c24_seq_seq_candid:n=3,k=0,len=2 c24_seq_bytes:len=4 c24_paged_cbor:k=3 c24_paged_candid:k=4 c24_paged_u16_candid:k=4 c24_paged_long_cbor:k=4,keys=2
     c24_paged_long_candid:k=9,keys=2
     c24_map_big:kinds=8 c24_map_seq_big:kinds=4,seq=1 c24_seq_big:kinds=10 c24_paged_big:kinds=10
     c24_huge:n=3000,minsts=2000"""),
"C25": ("map",
  """c25_deep:n=3,fix=0,seq=1,k=2 c25_inner:n=4,fix=0 c25_absent:n=4,fix=0,seq=1
     c25_any:n=4,fix=0,seq=1 c25_three:n=2,fix=0""",
  """c25_deep:n=4,fix=0,seq=2,k=3 c25_inner:n=6,fix=0 c25_absent:n=8,fix=0,seq=2
     c25_any:n=6,fix=0,seq=1 c25_three:n=4,fix=0"""),
"C26": ("tree",
  """c26_any:nodes=6,len=1,leak=1 c26_map:n=5,fix=0 c26_chain:n=12,len=1 c26_witness:n=3,fix=0,len=1
     c26_large:height=6,leak=1 c26_large_map:n=40,fix=1""",
  """c26_any:nodes=7,len=2,leak=1 c26_map:n=10,fix=0 c26_chain:n=60,len=1 c26_witness:n=6,fix=0,len=1
     c26_large:height=7,leak=1 c26_large_map:n=100,fix=1"""),
"C27": ("twin",
  """c27_group_big:kinds=3 c27_group_deep:depth=40 c27_large:n=24 c27_large_text:n=24 c27_large_long:n=16 c27_pages3:k=60,keys=0
     c27_u8:n=3,k=1,range=0 c27_coded:n=2,k=1,range=0 c27_long:n=3,k=1,range=0 c27_u8:n=3,k=0,range=1 c27_u16:n=2,k=1,range=0 c27_string:n=1,k=1,range=0,len=1 c27_vec:n=2,k=1,range=0,len=1 c27_tag:n=2,k=1,range=0 c27_comp:n=2,k=1,range=0
     c27_seqs:n=2,k=1,range=0,seq=1 c27_inner:n=1,k=1,range=0 c27_seq_u8:n=3 c27_seq_u32:n=3 c27_seq_string:n=2,len=1
     c27_pages1:k=4,keys=2 c27_pages2:k=5,keys=2 c27_pages3:k=6,keys=2 c27_group:n=2,fix=0,deep=2,len=1 c27_group:n=3,fix=0,deep=2,len=0""",
  """c27_u8:n=4,k=1,range=0 c27_coded:n=3,k=1,range=0 c27_long:n=4,k=1,range=0 c27_large_long:n=40 c27_u8:n=4,k=0,range=1 c27_u16:n=2,k=2,range=0 c27_string:n=2,k=1,range=0,len=2 c27_vec:n=2,k=1,range=0,len=2 c27_tag:n=4,k=1,range=0 c27_comp:n=3,k=1,range=0
     c27_seqs:n=3,k=1,range=0,seq=1 c27_inner:n=2,k=1,range=0 c27_large:n=100 c27_large_text:n=80 c27_seq_u8:n=4 c27_seq_u32:n=4 c27_seq_string:n=3,len=2
     c27_pages1:k=5,keys=3 c27_pages2:k=7,keys=2 c27_pages3:k=9,keys=2 c27_pages3:k=200,keys=0 c27_group:n=3,fix=0,deep=2,len=1 c27_group_big:kinds=10 c27_group_deep:depth=150"""),
}
RUNS = {p: (f, q.split(), t.split()) for p, (f, q, t) in RUNS.items()}
