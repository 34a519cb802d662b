//! SHA-256 as an uninterpreted collision-free function: the message is collected and handed whole to the symbolic engine.
#[cfg(feature = "std")]
extern crate std;
pub use digest::{self, Digest};
use digest::consts::{U128, U28, U32, U48, U64};
use digest::generic_array::GenericArray;
use digest::{BlockInput, FixedOutputDirty, Reset, Update};

extern "C" {
    fn sv_sha256(p: *const u8, n: usize, out: *mut u8);
}

macro_rules! hash {
    ($name:ident, $block:ty, $size:ty, $text:expr, $end:expr) => {
        #[derive(Clone, Default)]
        pub struct $name(Vec<u8>);
        impl BlockInput for $name {
            type BlockSize = $block;
        }
        impl Update for $name {
            fn update(&mut self, data: impl AsRef<[u8]>) {
                self.0.extend_from_slice(data.as_ref());
            }
        }
        impl FixedOutputDirty for $name {
            type OutputSize = $size;
            fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, $size>) {
                let end: fn(&mut Vec<u8>, &mut [u8]) = $end;
                end(&mut self.0, out.as_mut_slice())
            }
        }
        impl Reset for $name {
            fn reset(&mut self) {
                self.0.clear();
            }
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str($text)
            }
        }
        digest::impl_write!($name);
    };
}
hash!(Sha256, U64, U32, "Sha256 { .. }", |m, out| unsafe { sv_sha256(m.as_ptr(), m.len(), out.as_mut_ptr()) });

/// The other functions are not used by the code under check; they are here for its dependencies, and told apart by a prefix.
fn other(kind: u8, m: &mut Vec<u8>, out: &mut [u8]) {
    for (i, part) in out.chunks_mut(32).enumerate() {
        let mut n = vec![b'?', kind, i as u8];
        n.extend_from_slice(m);
        let mut d = [0u8; 32];
        unsafe { sv_sha256(n.as_ptr(), n.len(), d.as_mut_ptr()) }
        part.copy_from_slice(&d[..part.len()]);
    }
}
hash!(Sha224, U64, U28, "Sha224 { .. }", |m, out| other(1, m, out));
hash!(Sha384, U128, U48, "Sha384 { .. }", |m, out| other(2, m, out));
hash!(Sha512, U128, U64, "Sha512 { .. }", |m, out| other(3, m, out));
hash!(Sha512Trunc224, U128, U28, "Sha512Trunc224 { .. }", |m, out| other(4, m, out));
hash!(Sha512Trunc256, U128, U32, "Sha512Trunc256 { .. }", |m, out| other(5, m, out));
