//! Tables of types for the workloads to run over.

/// `$m!(args.. ; elem, natural vector)` for each element type.
#[macro_export]
macro_rules! natural_types {
    ($m:ident $(, $a:tt)*) => {
        $m!($($a,)* u8, u8s); $m!($($a,)* i8, i8s); $m!($($a,)* u16, u16s); $m!($($a,)* i16, i16s);
        $m!($($a,)* u32, u32s); $m!($($a,)* i32, i32s); $m!($($a,)* f32, f32s);
        $m!($($a,)* u64, u64s); $m!($($a,)* i64, i64s); $m!($($a,)* f64, f64s);
    };
}

/// `$m!(args.., elem, vector)` for every vector type.
#[macro_export]
macro_rules! all_vectors {
    ($m:ident $(, $a:tt)*) => {
        $m!($($a,)* u8, u8x16); $m!($($a,)* u8, u8x32); $m!($($a,)* u8, u8x64);
        $m!($($a,)* i8, i8x16); $m!($($a,)* i8, i8x32); $m!($($a,)* i8, i8x64);
        $m!($($a,)* u16, u16x8); $m!($($a,)* u16, u16x16); $m!($($a,)* u16, u16x32);
        $m!($($a,)* i16, i16x8); $m!($($a,)* i16, i16x16); $m!($($a,)* i16, i16x32);
        $m!($($a,)* u32, u32x4); $m!($($a,)* u32, u32x8); $m!($($a,)* u32, u32x16);
        $m!($($a,)* i32, i32x4); $m!($($a,)* i32, i32x8); $m!($($a,)* i32, i32x16);
        $m!($($a,)* u64, u64x2); $m!($($a,)* u64, u64x4); $m!($($a,)* u64, u64x8);
        $m!($($a,)* i64, i64x2); $m!($($a,)* i64, i64x4); $m!($($a,)* i64, i64x8);
        $m!($($a,)* f32, f32x4); $m!($($a,)* f32, f32x8); $m!($($a,)* f32, f32x16);
        $m!($($a,)* f64, f64x2); $m!($($a,)* f64, f64x4); $m!($($a,)* f64, f64x8);
    };
}

/// The integer ones.
#[macro_export]
macro_rules! int_vectors {
    ($m:ident $(, $a:tt)*) => {
        $m!($($a,)* u8, u8x16); $m!($($a,)* u8, u8x32); $m!($($a,)* u8, u8x64);
        $m!($($a,)* i8, i8x16); $m!($($a,)* i8, i8x32); $m!($($a,)* i8, i8x64);
        $m!($($a,)* u16, u16x8); $m!($($a,)* u16, u16x16); $m!($($a,)* u16, u16x32);
        $m!($($a,)* i16, i16x8); $m!($($a,)* i16, i16x16); $m!($($a,)* i16, i16x32);
        $m!($($a,)* u32, u32x4); $m!($($a,)* u32, u32x8); $m!($($a,)* u32, u32x16);
        $m!($($a,)* i32, i32x4); $m!($($a,)* i32, i32x8); $m!($($a,)* i32, i32x16);
        $m!($($a,)* u64, u64x2); $m!($($a,)* u64, u64x4); $m!($($a,)* u64, u64x8);
        $m!($($a,)* i64, i64x2); $m!($($a,)* i64, i64x4); $m!($($a,)* i64, i64x8);
    };
}
