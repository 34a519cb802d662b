//! Generated by tools/mkshapes.py: histories reaching every LLRB shape with up to 12 keys.
//! An entry is (number of keys used, operations); operation r >= 0 inserts the key of rank r, r < 0 deletes that of rank -1 - r.
pub static SHAPES: &[&[(u8, &[i8])]] = &[
    &[
        (0, &[]),
    ],
    &[
        (1, &[0]),
    ],
    &[
        (2, &[1, 0]),
    ],
    &[
        (3, &[2, 1, 0]),
    ],
    &[
        (4, &[3, 2, 1, 0]),
        (4, &[3, 1, 0, 2]),
    ],
    &[
        (5, &[4, 3, 2, 1, 0]),
        (5, &[4, 2, 1, 0, 3]),
    ],
    &[
        (6, &[5, 4, 3, 2, 1, 0]),
        (6, &[5, 4, 3, 1, 0, 2]),
        (6, &[5, 3, 2, 1, 0, 4]),
    ],
    &[
        (7, &[6, 5, 4, 2, 1, 0, 3]),
        (7, &[6, 4, 3, 2, 1, 0, 5]),
        (7, &[6, 5, 4, 3, 2, 1, 0]),
        (7, &[6, 4, 3, 1, 0, 2, 5]),
    ],
    &[
        (8, &[7, 6, 5, 4, 3, 2, 1, 0]),
        (8, &[7, 5, 4, 2, 1, 0, 3, 6]),
        (8, &[7, 6, 5, 4, 3, 1, 0, 2]),
        (8, &[7, 6, 5, 3, 2, 1, 0, 4]),
        (8, &[7, 5, 4, 3, 2, 1, 0, 6]),
    ],
    &[
        (9, &[8, 7, 6, 5, 4, 3, 2, 1, 0]),
        (9, &[8, 7, 6, 5, 4, 2, 1, 0, 3]),
        (9, &[8, 7, 6, 4, 3, 2, 1, 0, 5]),
        (9, &[8, 6, 5, 4, 3, 2, 1, 0, 7]),
        (9, &[8, 7, 6, 4, 3, 1, 0, 2, 5]),
        (9, &[8, 6, 5, 4, 3, 1, 0, 2, 7]),
        (9, &[8, 7, 6, 3, 2, 1, 0, 5, 4]),
        (9, &[8, 6, 5, 3, 2, 1, 0, 4, 7]),
    ],
    &[
        (10, &[9, 8, 7, 6, 5, 4, 3, 2, 1, 0]),
        (10, &[9, 8, 7, 6, 5, 4, 3, 1, 0, 2]),
        (10, &[9, 8, 7, 6, 5, 3, 2, 1, 0, 4]),
        (10, &[9, 8, 7, 5, 4, 3, 2, 1, 0, 6]),
        (10, &[9, 7, 6, 5, 4, 3, 2, 1, 0, 8]),
        (10, &[9, 8, 7, 5, 4, 2, 1, 0, 3, 6]),
        (10, &[9, 7, 6, 5, 4, 2, 1, 0, 3, 8]),
        (10, &[9, 8, 7, 4, 3, 2, 1, 0, 6, 5]),
        (10, &[9, 7, 6, 4, 3, 2, 1, 0, 5, 8]),
        (10, &[9, 8, 7, 4, 3, 1, 0, 2, 6, 5]),
        (10, &[9, 7, 6, 4, 3, 1, 0, 2, 5, 8]),
        (10, &[9, 8, 7, 3, 2, 1, 0, 6, 5, 4]),
        (10, &[9, 8, 7, 3, 2, 1, 0, 5, 4, 6]),
        (10, &[9, 7, 6, 3, 2, 1, 0, 5, 4, 8]),
    ],
    &[
        (11, &[10, 9, 8, 7, 6, 5, 4, 2, 1, 0, 3]),
        (11, &[10, 9, 8, 7, 6, 4, 3, 2, 1, 0, 5]),
        (11, &[10, 9, 8, 6, 5, 4, 3, 2, 1, 0, 7]),
        (11, &[10, 8, 7, 6, 5, 4, 3, 2, 1, 0, 9]),
        (11, &[10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]),
        (11, &[10, 9, 8, 7, 6, 4, 3, 1, 0, 2, 5]),
        (11, &[10, 9, 8, 6, 5, 4, 3, 1, 0, 2, 7]),
        (11, &[10, 8, 7, 6, 5, 4, 3, 1, 0, 2, 9]),
        (11, &[10, 9, 8, 6, 5, 3, 2, 1, 0, 4, 7]),
        (11, &[10, 8, 7, 6, 5, 3, 2, 1, 0, 4, 9]),
        (11, &[10, 9, 8, 5, 4, 3, 2, 1, 0, 7, 6]),
        (11, &[10, 8, 7, 5, 4, 3, 2, 1, 0, 6, 9]),
        (11, &[10, 9, 8, 5, 4, 2, 1, 0, 3, 7, 6]),
        (11, &[10, 8, 7, 5, 4, 2, 1, 0, 3, 6, 9]),
        (11, &[10, 9, 8, 4, 3, 2, 1, 0, 7, 6, 5]),
        (11, &[10, 9, 8, 4, 3, 2, 1, 0, 6, 5, 7]),
        (11, &[10, 8, 7, 4, 3, 2, 1, 0, 6, 5, 9]),
        (11, &[10, 9, 8, 4, 3, 1, 0, 2, 7, 6, 5]),
        (11, &[10, 9, 8, 4, 3, 1, 0, 2, 6, 5, 7]),
        (11, &[10, 8, 7, 4, 3, 1, 0, 2, 6, 5, 9]),
        (11, &[10, 9, 8, 3, 2, 1, 0, 6, 5, 4, 7]),
        (11, &[10, 8, 7, 3, 2, 1, 0, 6, 5, 4, 9]),
        (11, &[10, 8, 7, 3, 2, 1, 0, 5, 4, 6, 9]),
    ],
    &[
        (12, &[11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]),
        (12, &[11, 10, 9, 8, 7, 5, 4, 2, 1, 0, 3, 6]),
        (12, &[11, 10, 9, 7, 6, 5, 4, 2, 1, 0, 3, 8]),
        (12, &[11, 9, 8, 7, 6, 5, 4, 2, 1, 0, 3, 10]),
        (12, &[11, 10, 9, 7, 6, 4, 3, 2, 1, 0, 5, 8]),
        (12, &[11, 9, 8, 7, 6, 4, 3, 2, 1, 0, 5, 10]),
        (12, &[11, 10, 9, 6, 5, 4, 3, 2, 1, 0, 8, 7]),
        (12, &[11, 9, 8, 6, 5, 4, 3, 2, 1, 0, 7, 10]),
        (12, &[11, 10, 9, 8, 7, 6, 5, 4, 3, 1, 0, 2]),
        (12, &[11, 10, 9, 8, 7, 6, 5, 3, 2, 1, 0, 4]),
        (12, &[11, 10, 9, 8, 7, 5, 4, 3, 2, 1, 0, 6]),
        (12, &[11, 10, 9, 7, 6, 5, 4, 3, 2, 1, 0, 8]),
        (12, &[11, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 10]),
        (12, &[11, 10, 9, 7, 6, 4, 3, 1, 0, 2, 5, 8]),
        (12, &[11, 9, 8, 7, 6, 4, 3, 1, 0, 2, 5, 10]),
        (12, &[11, 10, 9, 6, 5, 4, 3, 1, 0, 2, 8, 7]),
        (12, &[11, 9, 8, 6, 5, 4, 3, 1, 0, 2, 7, 10]),
        (12, &[11, 10, 9, 6, 5, 3, 2, 1, 0, 4, 8, 7]),
        (12, &[11, 9, 8, 6, 5, 3, 2, 1, 0, 4, 7, 10]),
        (12, &[11, 10, 9, 5, 4, 3, 2, 1, 0, 8, 7, 6]),
        (12, &[11, 10, 9, 5, 4, 3, 2, 1, 0, 7, 6, 8]),
        (12, &[11, 9, 8, 5, 4, 3, 2, 1, 0, 7, 6, 10]),
        (12, &[11, 10, 9, 5, 4, 2, 1, 0, 3, 8, 7, 6]),
        (12, &[11, 10, 9, 5, 4, 2, 1, 0, 3, 7, 6, 8]),
        (12, &[11, 9, 8, 5, 4, 2, 1, 0, 3, 7, 6, 10]),
        (12, &[11, 10, 9, 4, 3, 2, 1, 0, 7, 6, 5, 8]),
        (12, &[11, 9, 8, 4, 3, 2, 1, 0, 7, 6, 5, 10]),
        (12, &[11, 9, 8, 4, 3, 2, 1, 0, 6, 5, 7, 10]),
        (12, &[11, 10, 9, 4, 3, 1, 0, 2, 7, 6, 5, 8]),
        (12, &[11, 9, 8, 4, 3, 1, 0, 2, 7, 6, 5, 10]),
        (12, &[11, 9, 8, 4, 3, 1, 0, 2, 6, 5, 7, 10]),
        (12, &[11, 9, 8, 3, 2, 1, 0, 6, 5, 4, 7, 10]),
    ],
];
