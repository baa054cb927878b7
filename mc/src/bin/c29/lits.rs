// Generated by tools/lits.py; do not edit.
pub type Row = (&'static str, Option<&'static str>, fn() -> UBig, Option<(fn() -> IBig, fn() -> IBig)>);
pub static PART0: &[Row] = &[
    ("0", Some("0"), || ubig!(0), Some((|| ibig!(0), || ibig!(-0)))),
    ("0x0", Some("0"), || ubig!(0x0), Some((|| ibig!(0x0), || ibig!(-0x0)))),
    ("0o0", Some("0"), || ubig!(0o0), Some((|| ibig!(0o0), || ibig!(-0o0)))),
    ("0b0", Some("0"), || ubig!(0b0), Some((|| ibig!(0b0), || ibig!(-0b0)))),
    ("0u128", Some("0"), || ubig!(0u128), None),
    ("0x0_u128", Some("0"), || ubig!(0x0_u128), None),
    ("0x0_0", Some("0"), || ubig!(0x0_0), Some((|| ibig!(0x0_0), || ibig!(-0x0_0)))),
    ("000", Some("0"), || ubig!(000), Some((|| ibig!(000), || ibig!(-000)))),
    ("0_", Some("0"), || ubig!(0_), Some((|| ibig!(0_), || ibig!(-0_)))),
    ("1", Some("1"), || ubig!(1), Some((|| ibig!(1), || ibig!(-1)))),
    ("0x1", Some("1"), || ubig!(0x1), Some((|| ibig!(0x1), || ibig!(-0x1)))),
    ("0o1", Some("1"), || ubig!(0o1), Some((|| ibig!(0o1), || ibig!(-0o1)))),
    ("0b1", Some("1"), || ubig!(0b1), Some((|| ibig!(0b1), || ibig!(-0b1)))),
    ("1u128", Some("1"), || ubig!(1u128), None),
    ("0x1_u128", Some("1"), || ubig!(0x1_u128), None),
    ("0x0_1", Some("1"), || ubig!(0x0_1), Some((|| ibig!(0x0_1), || ibig!(-0x0_1)))),
    ("001", Some("1"), || ubig!(001), Some((|| ibig!(001), || ibig!(-001)))),
    ("1_", Some("1"), || ubig!(1_), Some((|| ibig!(1_), || ibig!(-1_)))),
    ("2", Some("2"), || ubig!(2), Some((|| ibig!(2), || ibig!(-2)))),
    ("0x2", Some("2"), || ubig!(0x2), Some((|| ibig!(0x2), || ibig!(-0x2)))),
    ("0o2", Some("2"), || ubig!(0o2), Some((|| ibig!(0o2), || ibig!(-0o2)))),
    ("0b10", Some("2"), || ubig!(0b10), Some((|| ibig!(0b10), || ibig!(-0b10)))),
    ("2u128", Some("2"), || ubig!(2u128), None),
    ("0x2_u128", Some("2"), || ubig!(0x2_u128), None),
    ("0x0_2", Some("2"), || ubig!(0x0_2), Some((|| ibig!(0x0_2), || ibig!(-0x0_2)))),
    ("002", Some("2"), || ubig!(002), Some((|| ibig!(002), || ibig!(-002)))),
    ("2_", Some("2"), || ubig!(2_), Some((|| ibig!(2_), || ibig!(-2_)))),
    ("3", Some("3"), || ubig!(3), Some((|| ibig!(3), || ibig!(-3)))),
    ("0x3", Some("3"), || ubig!(0x3), Some((|| ibig!(0x3), || ibig!(-0x3)))),
    ("0o3", Some("3"), || ubig!(0o3), Some((|| ibig!(0o3), || ibig!(-0o3)))),
    ("0b11", Some("3"), || ubig!(0b11), Some((|| ibig!(0b11), || ibig!(-0b11)))),
    ("3u128", Some("3"), || ubig!(3u128), None),
    ("0x3_u128", Some("3"), || ubig!(0x3_u128), None),
    ("0x0_3", Some("3"), || ubig!(0x0_3), Some((|| ibig!(0x0_3), || ibig!(-0x0_3)))),
    ("003", Some("3"), || ubig!(003), Some((|| ibig!(003), || ibig!(-003)))),
    ("3_", Some("3"), || ubig!(3_), Some((|| ibig!(3_), || ibig!(-3_)))),
    ("7", Some("7"), || ubig!(7), Some((|| ibig!(7), || ibig!(-7)))),
    ("0x7", Some("7"), || ubig!(0x7), Some((|| ibig!(0x7), || ibig!(-0x7)))),
    ("0o7", Some("7"), || ubig!(0o7), Some((|| ibig!(0o7), || ibig!(-0o7)))),
    ("0b111", Some("7"), || ubig!(0b111), Some((|| ibig!(0b111), || ibig!(-0b111)))),
    ("7u128", Some("7"), || ubig!(7u128), None),
    ("0x7_u128", Some("7"), || ubig!(0x7_u128), None),
    ("0x0_7", Some("7"), || ubig!(0x0_7), Some((|| ibig!(0x0_7), || ibig!(-0x0_7)))),
    ("007", Some("7"), || ubig!(007), Some((|| ibig!(007), || ibig!(-007)))),
    ("7_", Some("7"), || ubig!(7_), Some((|| ibig!(7_), || ibig!(-7_)))),
    ("8", Some("8"), || ubig!(8), Some((|| ibig!(8), || ibig!(-8)))),
    ("0x8", Some("8"), || ubig!(0x8), Some((|| ibig!(0x8), || ibig!(-0x8)))),
    ("0o10", Some("8"), || ubig!(0o10), None),
    ("0b1000", Some("8"), || ubig!(0b1000), Some((|| ibig!(0b1000), || ibig!(-0b1000)))),
    ("8u128", Some("8"), || ubig!(8u128), None),
    ("0x8_u128", Some("8"), || ubig!(0x8_u128), None),
    ("0x0_8", Some("8"), || ubig!(0x0_8), Some((|| ibig!(0x0_8), || ibig!(-0x0_8)))),
    ("008", Some("8"), || ubig!(008), Some((|| ibig!(008), || ibig!(-008)))),
    ("8_", Some("8"), || ubig!(8_), Some((|| ibig!(8_), || ibig!(-8_)))),
    ("9", Some("9"), || ubig!(9), Some((|| ibig!(9), || ibig!(-9)))),
    ("0x9", Some("9"), || ubig!(0x9), Some((|| ibig!(0x9), || ibig!(-0x9)))),
    ("0o11", Some("9"), || ubig!(0o11), None),
    ("0b1001", Some("9"), || ubig!(0b1001), Some((|| ibig!(0b1001), || ibig!(-0b1001)))),
    ("9u128", Some("9"), || ubig!(9u128), None),
    ("0x9_u128", Some("9"), || ubig!(0x9_u128), None),
    ("0x0_9", Some("9"), || ubig!(0x0_9), Some((|| ibig!(0x0_9), || ibig!(-0x0_9)))),
    ("009", Some("9"), || ubig!(009), Some((|| ibig!(009), || ibig!(-009)))),
    ("9_", Some("9"), || ubig!(9_), Some((|| ibig!(9_), || ibig!(-9_)))),
    ("127", Some("7f"), || ubig!(127), Some((|| ibig!(127), || ibig!(-127)))),
    ("0x7f", Some("7f"), || ubig!(0x7f), None),
    ("0o177", Some("7f"), || ubig!(0o177), None),
    ("0b1111111", Some("7f"), || ubig!(0b1111111), Some((|| ibig!(0b1111111), || ibig!(-0b1111111)))),
    ("0x7F", Some("7f"), || ubig!(0x7F), None),
    ("127u128", Some("7f"), || ubig!(127u128), None),
    ("0x7f_u128", Some("7f"), || ubig!(0x7f_u128), Some((|| ibig!(0x7f_u128), || ibig!(-0x7f_u128)))),
    ("0x0_7f", Some("7f"), || ubig!(0x0_7f), None),
    ("00127", Some("7f"), || ubig!(00127), None),
    ("127_", Some("7f"), || ubig!(127_), Some((|| ibig!(127_), || ibig!(-127_)))),
    ("128", Some("80"), || ubig!(128), Some((|| ibig!(128), || ibig!(-128)))),
    ("0x80", Some("80"), || ubig!(0x80), None),
    ("0o200", Some("80"), || ubig!(0o200), Some((|| ibig!(0o200), || ibig!(-0o200)))),
    ("0b10000000", Some("80"), || ubig!(0b10000000), None),
    ("128u128", Some("80"), || ubig!(128u128), None),
    ("0x80_u128", Some("80"), || ubig!(0x80_u128), Some((|| ibig!(0x80_u128), || ibig!(-0x80_u128)))),
    ("0x0_80", Some("80"), || ubig!(0x0_80), None),
    ("00128", Some("80"), || ubig!(00128), None),
    ("128_", Some("80"), || ubig!(128_), Some((|| ibig!(128_), || ibig!(-128_)))),
    ("129", Some("81"), || ubig!(129), Some((|| ibig!(129), || ibig!(-129)))),
    ("0x81", Some("81"), || ubig!(0x81), None),
    ("0o201", Some("81"), || ubig!(0o201), Some((|| ibig!(0o201), || ibig!(-0o201)))),
    ("0b10000001", Some("81"), || ubig!(0b10000001), None),
    ("129u128", Some("81"), || ubig!(129u128), None),
    ("0x81_u128", Some("81"), || ubig!(0x81_u128), Some((|| ibig!(0x81_u128), || ibig!(-0x81_u128)))),
    ("0x0_81", Some("81"), || ubig!(0x0_81), None),
    ("00129", Some("81"), || ubig!(00129), None),
    ("129_", Some("81"), || ubig!(129_), Some((|| ibig!(129_), || ibig!(-129_)))),
    ("255", Some("ff"), || ubig!(255), Some((|| ibig!(255), || ibig!(-255)))),
    ("0xff", Some("ff"), || ubig!(0xff), None),
    ("0o377", Some("ff"), || ubig!(0o377), Some((|| ibig!(0o377), || ibig!(-0o377)))),
    ("0b11111111", Some("ff"), || ubig!(0b11111111), None),
    ("0xFF", Some("ff"), || ubig!(0xFF), None),
    ("255u128", Some("ff"), || ubig!(255u128), Some((|| ibig!(255u128), || ibig!(-255u128)))),
    ("0xff_u128", Some("ff"), || ubig!(0xff_u128), None),
    ("0x0_ff", Some("ff"), || ubig!(0x0_ff), None),
    ("00255", Some("ff"), || ubig!(00255), Some((|| ibig!(00255), || ibig!(-00255)))),
    ("255_", Some("ff"), || ubig!(255_), None),
    ("256", Some("100"), || ubig!(256), Some((|| ibig!(256), || ibig!(-256)))),
    ("0x100", Some("100"), || ubig!(0x100), Some((|| ibig!(0x100), || ibig!(-0x100)))),
    ("0o400", Some("100"), || ubig!(0o400), None),
    ("0b100000000", Some("100"), || ubig!(0b100000000), None),
    ("256u128", Some("100"), || ubig!(256u128), Some((|| ibig!(256u128), || ibig!(-256u128)))),
    ("0x100_u128", Some("100"), || ubig!(0x100_u128), None),
    ("0x0_100", Some("100"), || ubig!(0x0_100), None),
    ("00256", Some("100"), || ubig!(00256), Some((|| ibig!(00256), || ibig!(-00256)))),
    ("256_", Some("100"), || ubig!(256_), None),
    ("257", Some("101"), || ubig!(257), Some((|| ibig!(257), || ibig!(-257)))),
    ("0x101", Some("101"), || ubig!(0x101), Some((|| ibig!(0x101), || ibig!(-0x101)))),
    ("0o401", Some("101"), || ubig!(0o401), None),
    ("0b100000001", Some("101"), || ubig!(0b100000001), None),
    ("257u128", Some("101"), || ubig!(257u128), Some((|| ibig!(257u128), || ibig!(-257u128)))),
    ("0x101_u128", Some("101"), || ubig!(0x101_u128), None),
    ("0x0_101", Some("101"), || ubig!(0x0_101), None),
    ("00257", Some("101"), || ubig!(00257), Some((|| ibig!(00257), || ibig!(-00257)))),
    ("257_", Some("101"), || ubig!(257_), None),
    ("32767", Some("7fff"), || ubig!(32767), None),
    ("0x7fff", Some("7fff"), || ubig!(0x7fff), Some((|| ibig!(0x7fff), || ibig!(-0x7fff)))),
    ("0o77777", Some("7fff"), || ubig!(0o77777), None),
    ("0b111111111111111", Some("7fff"), || ubig!(0b111111111111111), None),
    ("0x7FFF", Some("7fff"), || ubig!(0x7FFF), Some((|| ibig!(0x7FFF), || ibig!(-0x7FFF)))),
    ("32767u128", Some("7fff"), || ubig!(32767u128), None),
    ("0x7fff_u128", Some("7fff"), || ubig!(0x7fff_u128), None),
    ("0x0_7fff", Some("7fff"), || ubig!(0x0_7fff), Some((|| ibig!(0x0_7fff), || ibig!(-0x0_7fff)))),
    ("0032767", Some("7fff"), || ubig!(0032767), None),
    ("327_67", Some("7fff"), || ubig!(327_67), None),
    ("32767_", Some("7fff"), || ubig!(32767_), Some((|| ibig!(32767_), || ibig!(-32767_)))),
    ("32768", Some("8000"), || ubig!(32768), None),
    ("0x8000", Some("8000"), || ubig!(0x8000), None),
    ("0o100000", Some("8000"), || ubig!(0o100000), Some((|| ibig!(0o100000), || ibig!(-0o100000)))),
    ("0b1000000000000000", Some("8000"), || ubig!(0b1000000000000000), None),
    ("32768u128", Some("8000"), || ubig!(32768u128), None),
    ("0x8000_u128", Some("8000"), || ubig!(0x8000_u128), Some((|| ibig!(0x8000_u128), || ibig!(-0x8000_u128)))),
    ("0x0_8000", Some("8000"), || ubig!(0x0_8000), None),
    ("0032768", Some("8000"), || ubig!(0032768), None),
    ("327_68", Some("8000"), || ubig!(327_68), Some((|| ibig!(327_68), || ibig!(-327_68)))),
    ("32768_", Some("8000"), || ubig!(32768_), None),
    ("32769", Some("8001"), || ubig!(32769), None),
    ("0x8001", Some("8001"), || ubig!(0x8001), Some((|| ibig!(0x8001), || ibig!(-0x8001)))),
    ("0o100001", Some("8001"), || ubig!(0o100001), None),
    ("0b1000000000000001", Some("8001"), || ubig!(0b1000000000000001), None),
    ("32769u128", Some("8001"), || ubig!(32769u128), Some((|| ibig!(32769u128), || ibig!(-32769u128)))),
    ("0x8001_u128", Some("8001"), || ubig!(0x8001_u128), None),
    ("0x0_8001", Some("8001"), || ubig!(0x0_8001), None),
    ("0032769", Some("8001"), || ubig!(0032769), Some((|| ibig!(0032769), || ibig!(-0032769)))),
    ("327_69", Some("8001"), || ubig!(327_69), None),
    ("32769_", Some("8001"), || ubig!(32769_), None),
];
pub static PART1: &[Row] = &[
    ("65535", Some("ffff"), || ubig!(65535), Some((|| ibig!(65535), || ibig!(-65535)))),
    ("0xffff", Some("ffff"), || ubig!(0xffff), None),
    ("0o177777", Some("ffff"), || ubig!(0o177777), None),
    ("0b1111111111111111", Some("ffff"), || ubig!(0b1111111111111111), Some((|| ibig!(0b1111111111111111), || ibig!(-0b1111111111111111)))),
    ("0xFFFF", Some("ffff"), || ubig!(0xFFFF), None),
    ("65535u128", Some("ffff"), || ubig!(65535u128), None),
    ("0xffff_u128", Some("ffff"), || ubig!(0xffff_u128), Some((|| ibig!(0xffff_u128), || ibig!(-0xffff_u128)))),
    ("0x0_ffff", Some("ffff"), || ubig!(0x0_ffff), None),
    ("0065535", Some("ffff"), || ubig!(0065535), None),
    ("655_35", Some("ffff"), || ubig!(655_35), Some((|| ibig!(655_35), || ibig!(-655_35)))),
    ("65535_", Some("ffff"), || ubig!(65535_), None),
    ("65536", Some("10000"), || ubig!(65536), None),
    ("0x10000", Some("10000"), || ubig!(0x10000), Some((|| ibig!(0x10000), || ibig!(-0x10000)))),
    ("0o200000", Some("10000"), || ubig!(0o200000), None),
    ("0b10000000000000000", Some("10000"), || ubig!(0b10000000000000000), None),
    ("65536u128", Some("10000"), || ubig!(65536u128), Some((|| ibig!(65536u128), || ibig!(-65536u128)))),
    ("0x10000_u128", Some("10000"), || ubig!(0x10000_u128), None),
    ("0x0_10000", Some("10000"), || ubig!(0x0_10000), None),
    ("0065536", Some("10000"), || ubig!(0065536), Some((|| ibig!(0065536), || ibig!(-0065536)))),
    ("655_36", Some("10000"), || ubig!(655_36), None),
    ("65536_", Some("10000"), || ubig!(65536_), None),
    ("65537", Some("10001"), || ubig!(65537), Some((|| ibig!(65537), || ibig!(-65537)))),
    ("0x10001", Some("10001"), || ubig!(0x10001), None),
    ("0o200001", Some("10001"), || ubig!(0o200001), None),
    ("0b10000000000000001", Some("10001"), || ubig!(0b10000000000000001), Some((|| ibig!(0b10000000000000001), || ibig!(-0b10000000000000001)))),
    ("65537u128", Some("10001"), || ubig!(65537u128), None),
    ("0x10001_u128", Some("10001"), || ubig!(0x10001_u128), None),
    ("0x0_10001", Some("10001"), || ubig!(0x0_10001), Some((|| ibig!(0x0_10001), || ibig!(-0x0_10001)))),
    ("0065537", Some("10001"), || ubig!(0065537), None),
    ("655_37", Some("10001"), || ubig!(655_37), None),
    ("65537_", Some("10001"), || ubig!(65537_), Some((|| ibig!(65537_), || ibig!(-65537_)))),
    ("131071", Some("1ffff"), || ubig!(131071), None),
    ("0x1ffff", Some("1ffff"), || ubig!(0x1ffff), None),
    ("0o377777", Some("1ffff"), || ubig!(0o377777), Some((|| ibig!(0o377777), || ibig!(-0o377777)))),
    ("0b11111111111111111", Some("1ffff"), || ubig!(0b11111111111111111), None),
    ("0x1FFFF", Some("1ffff"), || ubig!(0x1FFFF), None),
    ("131071u128", Some("1ffff"), || ubig!(131071u128), Some((|| ibig!(131071u128), || ibig!(-131071u128)))),
    ("0x1ffff_u128", Some("1ffff"), || ubig!(0x1ffff_u128), None),
    ("0x0_1ffff", Some("1ffff"), || ubig!(0x0_1ffff), None),
    ("00131071", Some("1ffff"), || ubig!(00131071), Some((|| ibig!(00131071), || ibig!(-00131071)))),
    ("131_071", Some("1ffff"), || ubig!(131_071), None),
    ("131071_", Some("1ffff"), || ubig!(131071_), None),
    ("131072", Some("20000"), || ubig!(131072), Some((|| ibig!(131072), || ibig!(-131072)))),
    ("0x20000", Some("20000"), || ubig!(0x20000), None),
    ("0o400000", Some("20000"), || ubig!(0o400000), None),
    ("0b100000000000000000", Some("20000"), || ubig!(0b100000000000000000), Some((|| ibig!(0b100000000000000000), || ibig!(-0b100000000000000000)))),
    ("131072u128", Some("20000"), || ubig!(131072u128), None),
    ("0x20000_u128", Some("20000"), || ubig!(0x20000_u128), None),
    ("0x0_20000", Some("20000"), || ubig!(0x0_20000), Some((|| ibig!(0x0_20000), || ibig!(-0x0_20000)))),
    ("00131072", Some("20000"), || ubig!(00131072), None),
    ("131_072", Some("20000"), || ubig!(131_072), None),
    ("131072_", Some("20000"), || ubig!(131072_), Some((|| ibig!(131072_), || ibig!(-131072_)))),
    ("131073", Some("20001"), || ubig!(131073), None),
    ("0x20001", Some("20001"), || ubig!(0x20001), None),
    ("0o400001", Some("20001"), || ubig!(0o400001), Some((|| ibig!(0o400001), || ibig!(-0o400001)))),
    ("0b100000000000000001", Some("20001"), || ubig!(0b100000000000000001), None),
    ("131073u128", Some("20001"), || ubig!(131073u128), None),
    ("0x20001_u128", Some("20001"), || ubig!(0x20001_u128), Some((|| ibig!(0x20001_u128), || ibig!(-0x20001_u128)))),
    ("0x0_20001", Some("20001"), || ubig!(0x0_20001), None),
    ("00131073", Some("20001"), || ubig!(00131073), None),
    ("131_073", Some("20001"), || ubig!(131_073), Some((|| ibig!(131_073), || ibig!(-131_073)))),
    ("131073_", Some("20001"), || ubig!(131073_), None),
    ("2147483647", Some("7fffffff"), || ubig!(2147483647), None),
    ("0x7fffffff", Some("7fffffff"), || ubig!(0x7fffffff), Some((|| ibig!(0x7fffffff), || ibig!(-0x7fffffff)))),
    ("0o17777777777", Some("7fffffff"), || ubig!(0o17777777777), None),
    ("0b1111111111111111111111111111111", Some("7fffffff"), || ubig!(0b1111111111111111111111111111111), None),
    ("0x7FFFFFFF", Some("7fffffff"), || ubig!(0x7FFFFFFF), Some((|| ibig!(0x7FFFFFFF), || ibig!(-0x7FFFFFFF)))),
    ("2147483647u128", Some("7fffffff"), || ubig!(2147483647u128), None),
    ("0x7fffffff_u128", Some("7fffffff"), || ubig!(0x7fffffff_u128), None),
    ("0x0_7fffffff", Some("7fffffff"), || ubig!(0x0_7fffffff), Some((|| ibig!(0x0_7fffffff), || ibig!(-0x0_7fffffff)))),
    ("002147483647", Some("7fffffff"), || ubig!(002147483647), None),
    ("214_748_364_7", Some("7fffffff"), || ubig!(214_748_364_7), None),
    ("2147483647_", Some("7fffffff"), || ubig!(2147483647_), Some((|| ibig!(2147483647_), || ibig!(-2147483647_)))),
    ("2147483648", Some("80000000"), || ubig!(2147483648), None),
    ("0x80000000", Some("80000000"), || ubig!(0x80000000), None),
    ("0o20000000000", Some("80000000"), || ubig!(0o20000000000), Some((|| ibig!(0o20000000000), || ibig!(-0o20000000000)))),
    ("0b10000000000000000000000000000000", Some("80000000"), || ubig!(0b10000000000000000000000000000000), None),
    ("2147483648u128", Some("80000000"), || ubig!(2147483648u128), None),
    ("0x80000000_u128", Some("80000000"), || ubig!(0x80000000_u128), Some((|| ibig!(0x80000000_u128), || ibig!(-0x80000000_u128)))),
    ("0x0_80000000", Some("80000000"), || ubig!(0x0_80000000), None),
    ("002147483648", Some("80000000"), || ubig!(002147483648), None),
    ("214_748_364_8", Some("80000000"), || ubig!(214_748_364_8), Some((|| ibig!(214_748_364_8), || ibig!(-214_748_364_8)))),
    ("2147483648_", Some("80000000"), || ubig!(2147483648_), None),
    ("2147483649", Some("80000001"), || ubig!(2147483649), None),
    ("0x80000001", Some("80000001"), || ubig!(0x80000001), Some((|| ibig!(0x80000001), || ibig!(-0x80000001)))),
    ("0o20000000001", Some("80000001"), || ubig!(0o20000000001), None),
    ("0b10000000000000000000000000000001", Some("80000001"), || ubig!(0b10000000000000000000000000000001), None),
    ("2147483649u128", Some("80000001"), || ubig!(2147483649u128), Some((|| ibig!(2147483649u128), || ibig!(-2147483649u128)))),
    ("0x80000001_u128", Some("80000001"), || ubig!(0x80000001_u128), None),
    ("0x0_80000001", Some("80000001"), || ubig!(0x0_80000001), None),
    ("002147483649", Some("80000001"), || ubig!(002147483649), Some((|| ibig!(002147483649), || ibig!(-002147483649)))),
    ("214_748_364_9", Some("80000001"), || ubig!(214_748_364_9), None),
    ("2147483649_", Some("80000001"), || ubig!(2147483649_), None),
    ("4294967295", Some("ffffffff"), || ubig!(4294967295), Some((|| ibig!(4294967295), || ibig!(-4294967295)))),
    ("0xffffffff", Some("ffffffff"), || ubig!(0xffffffff), None),
    ("0o37777777777", Some("ffffffff"), || ubig!(0o37777777777), None),
    ("0b11111111111111111111111111111111", Some("ffffffff"), || ubig!(0b11111111111111111111111111111111), Some((|| ibig!(0b11111111111111111111111111111111), || ibig!(-0b11111111111111111111111111111111)))),
    ("0xFFFFFFFF", Some("ffffffff"), || ubig!(0xFFFFFFFF), None),
    ("4294967295u128", Some("ffffffff"), || ubig!(4294967295u128), None),
    ("0xffffffff_u128", Some("ffffffff"), || ubig!(0xffffffff_u128), Some((|| ibig!(0xffffffff_u128), || ibig!(-0xffffffff_u128)))),
    ("0x0_ffffffff", Some("ffffffff"), || ubig!(0x0_ffffffff), None),
    ("004294967295", Some("ffffffff"), || ubig!(004294967295), None),
    ("429_496_729_5", Some("ffffffff"), || ubig!(429_496_729_5), Some((|| ibig!(429_496_729_5), || ibig!(-429_496_729_5)))),
    ("4294967295_", Some("ffffffff"), || ubig!(4294967295_), None),
    ("4294967296", Some("100000000"), || ubig!(4294967296), None),
    ("0x100000000", Some("100000000"), || ubig!(0x100000000), Some((|| ibig!(0x100000000), || ibig!(-0x100000000)))),
    ("0o40000000000", Some("100000000"), || ubig!(0o40000000000), None),
    ("0b100000000000000000000000000000000", Some("100000000"), || ubig!(0b100000000000000000000000000000000), None),
    ("4294967296u128", Some("100000000"), || ubig!(4294967296u128), Some((|| ibig!(4294967296u128), || ibig!(-4294967296u128)))),
    ("0x100000000_u128", Some("100000000"), || ubig!(0x100000000_u128), None),
    ("0x0_100000000", Some("100000000"), || ubig!(0x0_100000000), None),
    ("004294967296", Some("100000000"), || ubig!(004294967296), Some((|| ibig!(004294967296), || ibig!(-004294967296)))),
    ("429_496_729_6", Some("100000000"), || ubig!(429_496_729_6), None),
    ("4294967296_", Some("100000000"), || ubig!(4294967296_), None),
    ("4294967297", Some("100000001"), || ubig!(4294967297), Some((|| ibig!(4294967297), || ibig!(-4294967297)))),
    ("0x100000001", Some("100000001"), || ubig!(0x100000001), None),
    ("0o40000000001", Some("100000001"), || ubig!(0o40000000001), None),
    ("0b100000000000000000000000000000001", Some("100000001"), || ubig!(0b100000000000000000000000000000001), Some((|| ibig!(0b100000000000000000000000000000001), || ibig!(-0b100000000000000000000000000000001)))),
    ("4294967297u128", Some("100000001"), || ubig!(4294967297u128), None),
    ("0x100000001_u128", Some("100000001"), || ubig!(0x100000001_u128), None),
    ("0x0_100000001", Some("100000001"), || ubig!(0x0_100000001), Some((|| ibig!(0x0_100000001), || ibig!(-0x0_100000001)))),
    ("004294967297", Some("100000001"), || ubig!(004294967297), None),
    ("429_496_729_7", Some("100000001"), || ubig!(429_496_729_7), None),
    ("4294967297_", Some("100000001"), || ubig!(4294967297_), Some((|| ibig!(4294967297_), || ibig!(-4294967297_)))),
    ("8589934591", Some("1ffffffff"), || ubig!(8589934591), None),
    ("0x1ffffffff", Some("1ffffffff"), || ubig!(0x1ffffffff), None),
    ("0o77777777777", Some("1ffffffff"), || ubig!(0o77777777777), Some((|| ibig!(0o77777777777), || ibig!(-0o77777777777)))),
    ("0b111111111111111111111111111111111", Some("1ffffffff"), || ubig!(0b111111111111111111111111111111111), None),
    ("0x1FFFFFFFF", Some("1ffffffff"), || ubig!(0x1FFFFFFFF), None),
    ("8589934591u128", Some("1ffffffff"), || ubig!(8589934591u128), Some((|| ibig!(8589934591u128), || ibig!(-8589934591u128)))),
    ("0x1ffffffff_u128", Some("1ffffffff"), || ubig!(0x1ffffffff_u128), None),
    ("0x0_1ffffffff", Some("1ffffffff"), || ubig!(0x0_1ffffffff), None),
    ("008589934591", Some("1ffffffff"), || ubig!(008589934591), Some((|| ibig!(008589934591), || ibig!(-008589934591)))),
    ("858_993_459_1", Some("1ffffffff"), || ubig!(858_993_459_1), None),
    ("8589934591_", Some("1ffffffff"), || ubig!(8589934591_), None),
    ("8589934592", Some("200000000"), || ubig!(8589934592), Some((|| ibig!(8589934592), || ibig!(-8589934592)))),
    ("0x200000000", Some("200000000"), || ubig!(0x200000000), None),
    ("0o100000000000", Some("200000000"), || ubig!(0o100000000000), None),
    ("0b1000000000000000000000000000000000", Some("200000000"), || ubig!(0b1000000000000000000000000000000000), Some((|| ibig!(0b1000000000000000000000000000000000), || ibig!(-0b1000000000000000000000000000000000)))),
    ("8589934592u128", Some("200000000"), || ubig!(8589934592u128), None),
    ("0x200000000_u128", Some("200000000"), || ubig!(0x200000000_u128), None),
    ("0x0_200000000", Some("200000000"), || ubig!(0x0_200000000), Some((|| ibig!(0x0_200000000), || ibig!(-0x0_200000000)))),
    ("008589934592", Some("200000000"), || ubig!(008589934592), None),
    ("858_993_459_2", Some("200000000"), || ubig!(858_993_459_2), None),
    ("8589934592_", Some("200000000"), || ubig!(8589934592_), Some((|| ibig!(8589934592_), || ibig!(-8589934592_)))),
    ("8589934593", Some("200000001"), || ubig!(8589934593), None),
    ("0x200000001", Some("200000001"), || ubig!(0x200000001), None),
    ("0o100000000001", Some("200000001"), || ubig!(0o100000000001), Some((|| ibig!(0o100000000001), || ibig!(-0o100000000001)))),
    ("0b1000000000000000000000000000000001", Some("200000001"), || ubig!(0b1000000000000000000000000000000001), None),
    ("8589934593u128", Some("200000001"), || ubig!(8589934593u128), None),
];
pub static PART2: &[Row] = &[
    ("0x200000001_u128", Some("200000001"), || ubig!(0x200000001_u128), Some((|| ibig!(0x200000001_u128), || ibig!(-0x200000001_u128)))),
    ("0x0_200000001", Some("200000001"), || ubig!(0x0_200000001), None),
    ("008589934593", Some("200000001"), || ubig!(008589934593), None),
    ("858_993_459_3", Some("200000001"), || ubig!(858_993_459_3), Some((|| ibig!(858_993_459_3), || ibig!(-858_993_459_3)))),
    ("8589934593_", Some("200000001"), || ubig!(8589934593_), None),
    ("140737488355327", Some("7fffffffffff"), || ubig!(140737488355327), None),
    ("0x7fffffffffff", Some("7fffffffffff"), || ubig!(0x7fffffffffff), Some((|| ibig!(0x7fffffffffff), || ibig!(-0x7fffffffffff)))),
    ("0o3777777777777777", Some("7fffffffffff"), || ubig!(0o3777777777777777), None),
    ("0b11111111111111111111111111111111111111111111111", Some("7fffffffffff"), || ubig!(0b11111111111111111111111111111111111111111111111), None),
    ("0x7FFFFFFFFFFF", Some("7fffffffffff"), || ubig!(0x7FFFFFFFFFFF), Some((|| ibig!(0x7FFFFFFFFFFF), || ibig!(-0x7FFFFFFFFFFF)))),
    ("140737488355327u128", Some("7fffffffffff"), || ubig!(140737488355327u128), None),
    ("0x7fffffffffff_u128", Some("7fffffffffff"), || ubig!(0x7fffffffffff_u128), None),
    ("0x0_7fffffffffff", Some("7fffffffffff"), || ubig!(0x0_7fffffffffff), Some((|| ibig!(0x0_7fffffffffff), || ibig!(-0x0_7fffffffffff)))),
    ("00140737488355327", Some("7fffffffffff"), || ubig!(00140737488355327), None),
    ("140_737_488_355_327", Some("7fffffffffff"), || ubig!(140_737_488_355_327), None),
    ("140737488355327_", Some("7fffffffffff"), || ubig!(140737488355327_), Some((|| ibig!(140737488355327_), || ibig!(-140737488355327_)))),
    ("140737488355328", Some("800000000000"), || ubig!(140737488355328), None),
    ("0x800000000000", Some("800000000000"), || ubig!(0x800000000000), None),
    ("0o4000000000000000", Some("800000000000"), || ubig!(0o4000000000000000), Some((|| ibig!(0o4000000000000000), || ibig!(-0o4000000000000000)))),
    ("0b100000000000000000000000000000000000000000000000", Some("800000000000"), || ubig!(0b100000000000000000000000000000000000000000000000), None),
    ("140737488355328u128", Some("800000000000"), || ubig!(140737488355328u128), None),
    ("0x800000000000_u128", Some("800000000000"), || ubig!(0x800000000000_u128), Some((|| ibig!(0x800000000000_u128), || ibig!(-0x800000000000_u128)))),
    ("0x0_800000000000", Some("800000000000"), || ubig!(0x0_800000000000), None),
    ("00140737488355328", Some("800000000000"), || ubig!(00140737488355328), None),
    ("140_737_488_355_328", Some("800000000000"), || ubig!(140_737_488_355_328), Some((|| ibig!(140_737_488_355_328), || ibig!(-140_737_488_355_328)))),
    ("140737488355328_", Some("800000000000"), || ubig!(140737488355328_), None),
    ("140737488355329", Some("800000000001"), || ubig!(140737488355329), None),
    ("0x800000000001", Some("800000000001"), || ubig!(0x800000000001), Some((|| ibig!(0x800000000001), || ibig!(-0x800000000001)))),
    ("0o4000000000000001", Some("800000000001"), || ubig!(0o4000000000000001), None),
    ("0b100000000000000000000000000000000000000000000001", Some("800000000001"), || ubig!(0b100000000000000000000000000000000000000000000001), None),
    ("140737488355329u128", Some("800000000001"), || ubig!(140737488355329u128), Some((|| ibig!(140737488355329u128), || ibig!(-140737488355329u128)))),
    ("0x800000000001_u128", Some("800000000001"), || ubig!(0x800000000001_u128), None),
    ("0x0_800000000001", Some("800000000001"), || ubig!(0x0_800000000001), None),
    ("00140737488355329", Some("800000000001"), || ubig!(00140737488355329), Some((|| ibig!(00140737488355329), || ibig!(-00140737488355329)))),
    ("140_737_488_355_329", Some("800000000001"), || ubig!(140_737_488_355_329), None),
    ("140737488355329_", Some("800000000001"), || ubig!(140737488355329_), None),
    ("281474976710655", Some("ffffffffffff"), || ubig!(281474976710655), Some((|| ibig!(281474976710655), || ibig!(-281474976710655)))),
    ("0xffffffffffff", Some("ffffffffffff"), || ubig!(0xffffffffffff), None),
    ("0o7777777777777777", Some("ffffffffffff"), || ubig!(0o7777777777777777), None),
    ("0b111111111111111111111111111111111111111111111111", Some("ffffffffffff"), || ubig!(0b111111111111111111111111111111111111111111111111), Some((|| ibig!(0b111111111111111111111111111111111111111111111111), || ibig!(-0b111111111111111111111111111111111111111111111111)))),
    ("0xFFFFFFFFFFFF", Some("ffffffffffff"), || ubig!(0xFFFFFFFFFFFF), None),
    ("281474976710655u128", Some("ffffffffffff"), || ubig!(281474976710655u128), None),
    ("0xffffffffffff_u128", Some("ffffffffffff"), || ubig!(0xffffffffffff_u128), Some((|| ibig!(0xffffffffffff_u128), || ibig!(-0xffffffffffff_u128)))),
    ("0x0_ffffffffffff", Some("ffffffffffff"), || ubig!(0x0_ffffffffffff), None),
    ("00281474976710655", Some("ffffffffffff"), || ubig!(00281474976710655), None),
    ("281_474_976_710_655", Some("ffffffffffff"), || ubig!(281_474_976_710_655), Some((|| ibig!(281_474_976_710_655), || ibig!(-281_474_976_710_655)))),
    ("281474976710655_", Some("ffffffffffff"), || ubig!(281474976710655_), None),
    ("281474976710656", Some("1000000000000"), || ubig!(281474976710656), None),
    ("0x1000000000000", Some("1000000000000"), || ubig!(0x1000000000000), Some((|| ibig!(0x1000000000000), || ibig!(-0x1000000000000)))),
    ("0o10000000000000000", Some("1000000000000"), || ubig!(0o10000000000000000), None),
    ("0b1000000000000000000000000000000000000000000000000", Some("1000000000000"), || ubig!(0b1000000000000000000000000000000000000000000000000), None),
    ("281474976710656u128", Some("1000000000000"), || ubig!(281474976710656u128), Some((|| ibig!(281474976710656u128), || ibig!(-281474976710656u128)))),
    ("0x1000000000000_u128", Some("1000000000000"), || ubig!(0x1000000000000_u128), None),
    ("0x0_1000000000000", Some("1000000000000"), || ubig!(0x0_1000000000000), None),
    ("00281474976710656", Some("1000000000000"), || ubig!(00281474976710656), Some((|| ibig!(00281474976710656), || ibig!(-00281474976710656)))),
    ("281_474_976_710_656", Some("1000000000000"), || ubig!(281_474_976_710_656), None),
    ("281474976710656_", Some("1000000000000"), || ubig!(281474976710656_), None),
    ("281474976710657", Some("1000000000001"), || ubig!(281474976710657), Some((|| ibig!(281474976710657), || ibig!(-281474976710657)))),
    ("0x1000000000001", Some("1000000000001"), || ubig!(0x1000000000001), None),
    ("0o10000000000000001", Some("1000000000001"), || ubig!(0o10000000000000001), None),
    ("0b1000000000000000000000000000000000000000000000001", Some("1000000000001"), || ubig!(0b1000000000000000000000000000000000000000000000001), Some((|| ibig!(0b1000000000000000000000000000000000000000000000001), || ibig!(-0b1000000000000000000000000000000000000000000000001)))),
    ("281474976710657u128", Some("1000000000001"), || ubig!(281474976710657u128), None),
    ("0x1000000000001_u128", Some("1000000000001"), || ubig!(0x1000000000001_u128), None),
    ("0x0_1000000000001", Some("1000000000001"), || ubig!(0x0_1000000000001), Some((|| ibig!(0x0_1000000000001), || ibig!(-0x0_1000000000001)))),
    ("00281474976710657", Some("1000000000001"), || ubig!(00281474976710657), None),
    ("281_474_976_710_657", Some("1000000000001"), || ubig!(281_474_976_710_657), None),
    ("281474976710657_", Some("1000000000001"), || ubig!(281474976710657_), Some((|| ibig!(281474976710657_), || ibig!(-281474976710657_)))),
    ("9223372036854775807", Some("7fffffffffffffff"), || ubig!(9223372036854775807), None),
    ("0x7fffffffffffffff", Some("7fffffffffffffff"), || ubig!(0x7fffffffffffffff), None),
    ("0o777777777777777777777", Some("7fffffffffffffff"), || ubig!(0o777777777777777777777), Some((|| ibig!(0o777777777777777777777), || ibig!(-0o777777777777777777777)))),
    ("0b111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffff"), || ubig!(0b111111111111111111111111111111111111111111111111111111111111111), None),
    ("0x7FFFFFFFFFFFFFFF", Some("7fffffffffffffff"), || ubig!(0x7FFFFFFFFFFFFFFF), None),
    ("9223372036854775807u128", Some("7fffffffffffffff"), || ubig!(9223372036854775807u128), Some((|| ibig!(9223372036854775807u128), || ibig!(-9223372036854775807u128)))),
    ("0x7fffffffffffffff_u128", Some("7fffffffffffffff"), || ubig!(0x7fffffffffffffff_u128), None),
    ("0x0_7fffffffffffffff", Some("7fffffffffffffff"), || ubig!(0x0_7fffffffffffffff), None),
    ("009223372036854775807", Some("7fffffffffffffff"), || ubig!(009223372036854775807), Some((|| ibig!(009223372036854775807), || ibig!(-009223372036854775807)))),
    ("922_337_203_685_477_580_7", Some("7fffffffffffffff"), || ubig!(922_337_203_685_477_580_7), None),
    ("9223372036854775807_", Some("7fffffffffffffff"), || ubig!(9223372036854775807_), None),
    ("9223372036854775808", Some("8000000000000000"), || ubig!(9223372036854775808), Some((|| ibig!(9223372036854775808), || ibig!(-9223372036854775808)))),
    ("0x8000000000000000", Some("8000000000000000"), || ubig!(0x8000000000000000), None),
    ("0o1000000000000000000000", Some("8000000000000000"), || ubig!(0o1000000000000000000000), None),
    ("0b1000000000000000000000000000000000000000000000000000000000000000", Some("8000000000000000"), || ubig!(0b1000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(0b1000000000000000000000000000000000000000000000000000000000000000), || ibig!(-0b1000000000000000000000000000000000000000000000000000000000000000)))),
    ("9223372036854775808u128", Some("8000000000000000"), || ubig!(9223372036854775808u128), None),
    ("0x8000000000000000_u128", Some("8000000000000000"), || ubig!(0x8000000000000000_u128), None),
    ("0x0_8000000000000000", Some("8000000000000000"), || ubig!(0x0_8000000000000000), Some((|| ibig!(0x0_8000000000000000), || ibig!(-0x0_8000000000000000)))),
    ("009223372036854775808", Some("8000000000000000"), || ubig!(009223372036854775808), None),
    ("922_337_203_685_477_580_8", Some("8000000000000000"), || ubig!(922_337_203_685_477_580_8), None),
    ("9223372036854775808_", Some("8000000000000000"), || ubig!(9223372036854775808_), Some((|| ibig!(9223372036854775808_), || ibig!(-9223372036854775808_)))),
    ("9223372036854775809", Some("8000000000000001"), || ubig!(9223372036854775809), None),
    ("0x8000000000000001", Some("8000000000000001"), || ubig!(0x8000000000000001), None),
    ("0o1000000000000000000001", Some("8000000000000001"), || ubig!(0o1000000000000000000001), Some((|| ibig!(0o1000000000000000000001), || ibig!(-0o1000000000000000000001)))),
    ("0b1000000000000000000000000000000000000000000000000000000000000001", Some("8000000000000001"), || ubig!(0b1000000000000000000000000000000000000000000000000000000000000001), None),
    ("9223372036854775809u128", Some("8000000000000001"), || ubig!(9223372036854775809u128), None),
    ("0x8000000000000001_u128", Some("8000000000000001"), || ubig!(0x8000000000000001_u128), Some((|| ibig!(0x8000000000000001_u128), || ibig!(-0x8000000000000001_u128)))),
    ("0x0_8000000000000001", Some("8000000000000001"), || ubig!(0x0_8000000000000001), None),
    ("009223372036854775809", Some("8000000000000001"), || ubig!(009223372036854775809), None),
    ("922_337_203_685_477_580_9", Some("8000000000000001"), || ubig!(922_337_203_685_477_580_9), Some((|| ibig!(922_337_203_685_477_580_9), || ibig!(-922_337_203_685_477_580_9)))),
    ("9223372036854775809_", Some("8000000000000001"), || ubig!(9223372036854775809_), None),
    ("18446744073709551615", Some("ffffffffffffffff"), || ubig!(18446744073709551615), None),
    ("0xffffffffffffffff", Some("ffffffffffffffff"), || ubig!(0xffffffffffffffff), Some((|| ibig!(0xffffffffffffffff), || ibig!(-0xffffffffffffffff)))),
    ("0o1777777777777777777777", Some("ffffffffffffffff"), || ubig!(0o1777777777777777777777), None),
    ("0b1111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffff"), || ubig!(0b1111111111111111111111111111111111111111111111111111111111111111), None),
    ("0xFFFFFFFFFFFFFFFF", Some("ffffffffffffffff"), || ubig!(0xFFFFFFFFFFFFFFFF), Some((|| ibig!(0xFFFFFFFFFFFFFFFF), || ibig!(-0xFFFFFFFFFFFFFFFF)))),
    ("18446744073709551615u128", Some("ffffffffffffffff"), || ubig!(18446744073709551615u128), None),
    ("0xffffffffffffffff_u128", Some("ffffffffffffffff"), || ubig!(0xffffffffffffffff_u128), None),
    ("0x0_ffffffffffffffff", Some("ffffffffffffffff"), || ubig!(0x0_ffffffffffffffff), Some((|| ibig!(0x0_ffffffffffffffff), || ibig!(-0x0_ffffffffffffffff)))),
    ("0018446744073709551615", Some("ffffffffffffffff"), || ubig!(0018446744073709551615), None),
    ("184_467_440_737_095_516_15", Some("ffffffffffffffff"), || ubig!(184_467_440_737_095_516_15), None),
    ("18446744073709551615_", Some("ffffffffffffffff"), || ubig!(18446744073709551615_), Some((|| ibig!(18446744073709551615_), || ibig!(-18446744073709551615_)))),
    ("18446744073709551616", Some("10000000000000000"), || ubig!(18446744073709551616), None),
    ("0x10000000000000000", Some("10000000000000000"), || ubig!(0x10000000000000000), None),
    ("0o2000000000000000000000", Some("10000000000000000"), || ubig!(0o2000000000000000000000), Some((|| ibig!(0o2000000000000000000000), || ibig!(-0o2000000000000000000000)))),
    ("0b10000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000"), || ubig!(0b10000000000000000000000000000000000000000000000000000000000000000), None),
    ("18446744073709551616u128", Some("10000000000000000"), || ubig!(18446744073709551616u128), None),
    ("0x10000000000000000_u128", Some("10000000000000000"), || ubig!(0x10000000000000000_u128), Some((|| ibig!(0x10000000000000000_u128), || ibig!(-0x10000000000000000_u128)))),
    ("0x0_10000000000000000", Some("10000000000000000"), || ubig!(0x0_10000000000000000), None),
    ("0018446744073709551616", Some("10000000000000000"), || ubig!(0018446744073709551616), None),
    ("184_467_440_737_095_516_16", Some("10000000000000000"), || ubig!(184_467_440_737_095_516_16), Some((|| ibig!(184_467_440_737_095_516_16), || ibig!(-184_467_440_737_095_516_16)))),
    ("18446744073709551616_", Some("10000000000000000"), || ubig!(18446744073709551616_), None),
    ("18446744073709551617", Some("10000000000000001"), || ubig!(18446744073709551617), None),
    ("0x10000000000000001", Some("10000000000000001"), || ubig!(0x10000000000000001), Some((|| ibig!(0x10000000000000001), || ibig!(-0x10000000000000001)))),
    ("0o2000000000000000000001", Some("10000000000000001"), || ubig!(0o2000000000000000000001), None),
    ("0b10000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000001"), || ubig!(0b10000000000000000000000000000000000000000000000000000000000000001), None),
    ("18446744073709551617u128", Some("10000000000000001"), || ubig!(18446744073709551617u128), Some((|| ibig!(18446744073709551617u128), || ibig!(-18446744073709551617u128)))),
    ("0x10000000000000001_u128", Some("10000000000000001"), || ubig!(0x10000000000000001_u128), None),
    ("0x0_10000000000000001", Some("10000000000000001"), || ubig!(0x0_10000000000000001), None),
    ("0018446744073709551617", Some("10000000000000001"), || ubig!(0018446744073709551617), Some((|| ibig!(0018446744073709551617), || ibig!(-0018446744073709551617)))),
    ("184_467_440_737_095_516_17", Some("10000000000000001"), || ubig!(184_467_440_737_095_516_17), None),
    ("18446744073709551617_", Some("10000000000000001"), || ubig!(18446744073709551617_), None),
    ("36893488147419103231", Some("1ffffffffffffffff"), || ubig!(36893488147419103231), Some((|| ibig!(36893488147419103231), || ibig!(-36893488147419103231)))),
    ("0x1ffffffffffffffff", Some("1ffffffffffffffff"), || ubig!(0x1ffffffffffffffff), None),
    ("0o3777777777777777777777", Some("1ffffffffffffffff"), || ubig!(0o3777777777777777777777), None),
    ("0b11111111111111111111111111111111111111111111111111111111111111111", Some("1ffffffffffffffff"), || ubig!(0b11111111111111111111111111111111111111111111111111111111111111111), Some((|| ibig!(0b11111111111111111111111111111111111111111111111111111111111111111), || ibig!(-0b11111111111111111111111111111111111111111111111111111111111111111)))),
    ("0x1FFFFFFFFFFFFFFFF", Some("1ffffffffffffffff"), || ubig!(0x1FFFFFFFFFFFFFFFF), None),
    ("36893488147419103231u128", Some("1ffffffffffffffff"), || ubig!(36893488147419103231u128), None),
    ("0x1ffffffffffffffff_u128", Some("1ffffffffffffffff"), || ubig!(0x1ffffffffffffffff_u128), Some((|| ibig!(0x1ffffffffffffffff_u128), || ibig!(-0x1ffffffffffffffff_u128)))),
    ("0x0_1ffffffffffffffff", Some("1ffffffffffffffff"), || ubig!(0x0_1ffffffffffffffff), None),
    ("0036893488147419103231", Some("1ffffffffffffffff"), || ubig!(0036893488147419103231), None),
    ("368_934_881_474_191_032_31", Some("1ffffffffffffffff"), || ubig!(368_934_881_474_191_032_31), Some((|| ibig!(368_934_881_474_191_032_31), || ibig!(-368_934_881_474_191_032_31)))),
    ("36893488147419103231_", Some("1ffffffffffffffff"), || ubig!(36893488147419103231_), None),
    ("36893488147419103232", Some("20000000000000000"), || ubig!(36893488147419103232), None),
    ("0x20000000000000000", Some("20000000000000000"), || ubig!(0x20000000000000000), Some((|| ibig!(0x20000000000000000), || ibig!(-0x20000000000000000)))),
    ("0o4000000000000000000000", Some("20000000000000000"), || ubig!(0o4000000000000000000000), None),
    ("0b100000000000000000000000000000000000000000000000000000000000000000", Some("20000000000000000"), || ubig!(0b100000000000000000000000000000000000000000000000000000000000000000), None),
    ("36893488147419103232u128", Some("20000000000000000"), || ubig!(36893488147419103232u128), Some((|| ibig!(36893488147419103232u128), || ibig!(-36893488147419103232u128)))),
    ("0x20000000000000000_u128", Some("20000000000000000"), || ubig!(0x20000000000000000_u128), None),
    ("0x0_20000000000000000", Some("20000000000000000"), || ubig!(0x0_20000000000000000), None),
    ("0036893488147419103232", Some("20000000000000000"), || ubig!(0036893488147419103232), Some((|| ibig!(0036893488147419103232), || ibig!(-0036893488147419103232)))),
    ("368_934_881_474_191_032_32", Some("20000000000000000"), || ubig!(368_934_881_474_191_032_32), None),
    ("36893488147419103232_", Some("20000000000000000"), || ubig!(36893488147419103232_), None),
];
pub static PART3: &[Row] = &[
    ("36893488147419103233", Some("20000000000000001"), || ubig!(36893488147419103233), Some((|| ibig!(36893488147419103233), || ibig!(-36893488147419103233)))),
    ("0x20000000000000001", Some("20000000000000001"), || ubig!(0x20000000000000001), None),
    ("0o4000000000000000000001", Some("20000000000000001"), || ubig!(0o4000000000000000000001), None),
    ("0b100000000000000000000000000000000000000000000000000000000000000001", Some("20000000000000001"), || ubig!(0b100000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(0b100000000000000000000000000000000000000000000000000000000000000001), || ibig!(-0b100000000000000000000000000000000000000000000000000000000000000001)))),
    ("36893488147419103233u128", Some("20000000000000001"), || ubig!(36893488147419103233u128), None),
    ("0x20000000000000001_u128", Some("20000000000000001"), || ubig!(0x20000000000000001_u128), None),
    ("0x0_20000000000000001", Some("20000000000000001"), || ubig!(0x0_20000000000000001), Some((|| ibig!(0x0_20000000000000001), || ibig!(-0x0_20000000000000001)))),
    ("0036893488147419103233", Some("20000000000000001"), || ubig!(0036893488147419103233), None),
    ("368_934_881_474_191_032_33", Some("20000000000000001"), || ubig!(368_934_881_474_191_032_33), None),
    ("36893488147419103233_", Some("20000000000000001"), || ubig!(36893488147419103233_), Some((|| ibig!(36893488147419103233_), || ibig!(-36893488147419103233_)))),
    ("604462909807314587353087", Some("7fffffffffffffffffff"), || ubig!(604462909807314587353087), None),
    ("0x7fffffffffffffffffff", Some("7fffffffffffffffffff"), || ubig!(0x7fffffffffffffffffff), None),
    ("0o177777777777777777777777777", Some("7fffffffffffffffffff"), || ubig!(0o177777777777777777777777777), Some((|| ibig!(0o177777777777777777777777777), || ibig!(-0o177777777777777777777777777)))),
    ("0b1111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffffffff"), || ubig!(0b1111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("0x7FFFFFFFFFFFFFFFFFFF", Some("7fffffffffffffffffff"), || ubig!(0x7FFFFFFFFFFFFFFFFFFF), None),
    ("604462909807314587353087u128", Some("7fffffffffffffffffff"), || ubig!(604462909807314587353087u128), Some((|| ibig!(604462909807314587353087u128), || ibig!(-604462909807314587353087u128)))),
    ("0x7fffffffffffffffffff_u128", Some("7fffffffffffffffffff"), || ubig!(0x7fffffffffffffffffff_u128), None),
    ("0x0_7fffffffffffffffffff", Some("7fffffffffffffffffff"), || ubig!(0x0_7fffffffffffffffffff), None),
    ("00604462909807314587353087", Some("7fffffffffffffffffff"), || ubig!(00604462909807314587353087), Some((|| ibig!(00604462909807314587353087), || ibig!(-00604462909807314587353087)))),
    ("604_462_909_807_314_587_353_087", Some("7fffffffffffffffffff"), || ubig!(604_462_909_807_314_587_353_087), None),
    ("604462909807314587353087_", Some("7fffffffffffffffffff"), || ubig!(604462909807314587353087_), None),
    ("604462909807314587353088", Some("80000000000000000000"), || ubig!(604462909807314587353088), Some((|| ibig!(604462909807314587353088), || ibig!(-604462909807314587353088)))),
    ("0x80000000000000000000", Some("80000000000000000000"), || ubig!(0x80000000000000000000), None),
    ("0o200000000000000000000000000", Some("80000000000000000000"), || ubig!(0o200000000000000000000000000), None),
    ("0b10000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("80000000000000000000"), || ubig!(0b10000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(0b10000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-0b10000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("604462909807314587353088u128", Some("80000000000000000000"), || ubig!(604462909807314587353088u128), None),
    ("0x80000000000000000000_u128", Some("80000000000000000000"), || ubig!(0x80000000000000000000_u128), None),
    ("0x0_80000000000000000000", Some("80000000000000000000"), || ubig!(0x0_80000000000000000000), Some((|| ibig!(0x0_80000000000000000000), || ibig!(-0x0_80000000000000000000)))),
    ("00604462909807314587353088", Some("80000000000000000000"), || ubig!(00604462909807314587353088), None),
    ("604_462_909_807_314_587_353_088", Some("80000000000000000000"), || ubig!(604_462_909_807_314_587_353_088), None),
    ("604462909807314587353088_", Some("80000000000000000000"), || ubig!(604462909807314587353088_), Some((|| ibig!(604462909807314587353088_), || ibig!(-604462909807314587353088_)))),
    ("604462909807314587353089", Some("80000000000000000001"), || ubig!(604462909807314587353089), None),
    ("0x80000000000000000001", Some("80000000000000000001"), || ubig!(0x80000000000000000001), None),
    ("0o200000000000000000000000001", Some("80000000000000000001"), || ubig!(0o200000000000000000000000001), Some((|| ibig!(0o200000000000000000000000001), || ibig!(-0o200000000000000000000000001)))),
    ("0b10000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("80000000000000000001"), || ubig!(0b10000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("604462909807314587353089u128", Some("80000000000000000001"), || ubig!(604462909807314587353089u128), None),
    ("0x80000000000000000001_u128", Some("80000000000000000001"), || ubig!(0x80000000000000000001_u128), Some((|| ibig!(0x80000000000000000001_u128), || ibig!(-0x80000000000000000001_u128)))),
    ("0x0_80000000000000000001", Some("80000000000000000001"), || ubig!(0x0_80000000000000000001), None),
    ("00604462909807314587353089", Some("80000000000000000001"), || ubig!(00604462909807314587353089), None),
    ("604_462_909_807_314_587_353_089", Some("80000000000000000001"), || ubig!(604_462_909_807_314_587_353_089), Some((|| ibig!(604_462_909_807_314_587_353_089), || ibig!(-604_462_909_807_314_587_353_089)))),
    ("604462909807314587353089_", Some("80000000000000000001"), || ubig!(604462909807314587353089_), None),
    ("1208925819614629174706175", Some("ffffffffffffffffffff"), || ubig!(1208925819614629174706175), None),
    ("0xffffffffffffffffffff", Some("ffffffffffffffffffff"), || ubig!(0xffffffffffffffffffff), Some((|| ibig!(0xffffffffffffffffffff), || ibig!(-0xffffffffffffffffffff)))),
    ("0o377777777777777777777777777", Some("ffffffffffffffffffff"), || ubig!(0o377777777777777777777777777), None),
    ("0b11111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffff"), || ubig!(0b11111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("0xFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffff"), || ubig!(0xFFFFFFFFFFFFFFFFFFFF), Some((|| ibig!(0xFFFFFFFFFFFFFFFFFFFF), || ibig!(-0xFFFFFFFFFFFFFFFFFFFF)))),
    ("1208925819614629174706175u128", Some("ffffffffffffffffffff"), || ubig!(1208925819614629174706175u128), None),
    ("0xffffffffffffffffffff_u128", Some("ffffffffffffffffffff"), || ubig!(0xffffffffffffffffffff_u128), None),
    ("0x0_ffffffffffffffffffff", Some("ffffffffffffffffffff"), || ubig!(0x0_ffffffffffffffffffff), Some((|| ibig!(0x0_ffffffffffffffffffff), || ibig!(-0x0_ffffffffffffffffffff)))),
    ("001208925819614629174706175", Some("ffffffffffffffffffff"), || ubig!(001208925819614629174706175), None),
    ("120_892_581_961_462_917_470_617_5", Some("ffffffffffffffffffff"), || ubig!(120_892_581_961_462_917_470_617_5), None),
    ("1208925819614629174706175_", Some("ffffffffffffffffffff"), || ubig!(1208925819614629174706175_), Some((|| ibig!(1208925819614629174706175_), || ibig!(-1208925819614629174706175_)))),
    ("1208925819614629174706176", Some("100000000000000000000"), || ubig!(1208925819614629174706176), None),
    ("0x100000000000000000000", Some("100000000000000000000"), || ubig!(0x100000000000000000000), None),
    ("0o400000000000000000000000000", Some("100000000000000000000"), || ubig!(0o400000000000000000000000000), Some((|| ibig!(0o400000000000000000000000000), || ibig!(-0o400000000000000000000000000)))),
    ("0b100000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000"), || ubig!(0b100000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("1208925819614629174706176u128", Some("100000000000000000000"), || ubig!(1208925819614629174706176u128), None),
    ("0x100000000000000000000_u128", Some("100000000000000000000"), || ubig!(0x100000000000000000000_u128), Some((|| ibig!(0x100000000000000000000_u128), || ibig!(-0x100000000000000000000_u128)))),
    ("0x0_100000000000000000000", Some("100000000000000000000"), || ubig!(0x0_100000000000000000000), None),
    ("001208925819614629174706176", Some("100000000000000000000"), || ubig!(001208925819614629174706176), None),
    ("120_892_581_961_462_917_470_617_6", Some("100000000000000000000"), || ubig!(120_892_581_961_462_917_470_617_6), Some((|| ibig!(120_892_581_961_462_917_470_617_6), || ibig!(-120_892_581_961_462_917_470_617_6)))),
    ("1208925819614629174706176_", Some("100000000000000000000"), || ubig!(1208925819614629174706176_), None),
    ("1208925819614629174706177", Some("100000000000000000001"), || ubig!(1208925819614629174706177), None),
    ("0x100000000000000000001", Some("100000000000000000001"), || ubig!(0x100000000000000000001), Some((|| ibig!(0x100000000000000000001), || ibig!(-0x100000000000000000001)))),
    ("0o400000000000000000000000001", Some("100000000000000000001"), || ubig!(0o400000000000000000000000001), None),
    ("0b100000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000001"), || ubig!(0b100000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("1208925819614629174706177u128", Some("100000000000000000001"), || ubig!(1208925819614629174706177u128), Some((|| ibig!(1208925819614629174706177u128), || ibig!(-1208925819614629174706177u128)))),
    ("0x100000000000000000001_u128", Some("100000000000000000001"), || ubig!(0x100000000000000000001_u128), None),
    ("0x0_100000000000000000001", Some("100000000000000000001"), || ubig!(0x0_100000000000000000001), None),
    ("001208925819614629174706177", Some("100000000000000000001"), || ubig!(001208925819614629174706177), Some((|| ibig!(001208925819614629174706177), || ibig!(-001208925819614629174706177)))),
    ("120_892_581_961_462_917_470_617_7", Some("100000000000000000001"), || ubig!(120_892_581_961_462_917_470_617_7), None),
    ("1208925819614629174706177_", Some("100000000000000000001"), || ubig!(1208925819614629174706177_), None),
    ("39614081257132168796771975167", Some("7fffffffffffffffffffffff"), || ubig!(39614081257132168796771975167), Some((|| ibig!(39614081257132168796771975167), || ibig!(-39614081257132168796771975167)))),
    ("0x7fffffffffffffffffffffff", Some("7fffffffffffffffffffffff"), || ubig!(0x7fffffffffffffffffffffff), None),
    ("0o37777777777777777777777777777777", Some("7fffffffffffffffffffffff"), || ubig!(0o37777777777777777777777777777777), None),
    ("0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffffffffffff"), || ubig!(0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), Some((|| ibig!(0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), || ibig!(-0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111)))),
    ("0x7FFFFFFFFFFFFFFFFFFFFFFF", Some("7fffffffffffffffffffffff"), || ubig!(0x7FFFFFFFFFFFFFFFFFFFFFFF), None),
    ("39614081257132168796771975167u128", Some("7fffffffffffffffffffffff"), || ubig!(39614081257132168796771975167u128), None),
    ("0x7fffffffffffffffffffffff_u128", Some("7fffffffffffffffffffffff"), || ubig!(0x7fffffffffffffffffffffff_u128), Some((|| ibig!(0x7fffffffffffffffffffffff_u128), || ibig!(-0x7fffffffffffffffffffffff_u128)))),
    ("0x0_7fffffffffffffffffffffff", Some("7fffffffffffffffffffffff"), || ubig!(0x0_7fffffffffffffffffffffff), None),
    ("0039614081257132168796771975167", Some("7fffffffffffffffffffffff"), || ubig!(0039614081257132168796771975167), None),
    ("396_140_812_571_321_687_967_719_751_67", Some("7fffffffffffffffffffffff"), || ubig!(396_140_812_571_321_687_967_719_751_67), Some((|| ibig!(396_140_812_571_321_687_967_719_751_67), || ibig!(-396_140_812_571_321_687_967_719_751_67)))),
    ("39614081257132168796771975167_", Some("7fffffffffffffffffffffff"), || ubig!(39614081257132168796771975167_), None),
    ("39614081257132168796771975168", Some("800000000000000000000000"), || ubig!(39614081257132168796771975168), None),
    ("0x800000000000000000000000", Some("800000000000000000000000"), || ubig!(0x800000000000000000000000), Some((|| ibig!(0x800000000000000000000000), || ibig!(-0x800000000000000000000000)))),
    ("0o40000000000000000000000000000000", Some("800000000000000000000000"), || ubig!(0o40000000000000000000000000000000), None),
    ("0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("800000000000000000000000"), || ubig!(0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("39614081257132168796771975168u128", Some("800000000000000000000000"), || ubig!(39614081257132168796771975168u128), Some((|| ibig!(39614081257132168796771975168u128), || ibig!(-39614081257132168796771975168u128)))),
    ("0x800000000000000000000000_u128", Some("800000000000000000000000"), || ubig!(0x800000000000000000000000_u128), None),
    ("0x0_800000000000000000000000", Some("800000000000000000000000"), || ubig!(0x0_800000000000000000000000), None),
    ("0039614081257132168796771975168", Some("800000000000000000000000"), || ubig!(0039614081257132168796771975168), Some((|| ibig!(0039614081257132168796771975168), || ibig!(-0039614081257132168796771975168)))),
    ("396_140_812_571_321_687_967_719_751_68", Some("800000000000000000000000"), || ubig!(396_140_812_571_321_687_967_719_751_68), None),
    ("39614081257132168796771975168_", Some("800000000000000000000000"), || ubig!(39614081257132168796771975168_), None),
    ("39614081257132168796771975169", Some("800000000000000000000001"), || ubig!(39614081257132168796771975169), Some((|| ibig!(39614081257132168796771975169), || ibig!(-39614081257132168796771975169)))),
    ("0x800000000000000000000001", Some("800000000000000000000001"), || ubig!(0x800000000000000000000001), None),
    ("0o40000000000000000000000000000001", Some("800000000000000000000001"), || ubig!(0o40000000000000000000000000000001), None),
    ("0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("800000000000000000000001"), || ubig!(0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("39614081257132168796771975169u128", Some("800000000000000000000001"), || ubig!(39614081257132168796771975169u128), None),
    ("0x800000000000000000000001_u128", Some("800000000000000000000001"), || ubig!(0x800000000000000000000001_u128), None),
    ("0x0_800000000000000000000001", Some("800000000000000000000001"), || ubig!(0x0_800000000000000000000001), Some((|| ibig!(0x0_800000000000000000000001), || ibig!(-0x0_800000000000000000000001)))),
    ("0039614081257132168796771975169", Some("800000000000000000000001"), || ubig!(0039614081257132168796771975169), None),
    ("396_140_812_571_321_687_967_719_751_69", Some("800000000000000000000001"), || ubig!(396_140_812_571_321_687_967_719_751_69), None),
    ("39614081257132168796771975169_", Some("800000000000000000000001"), || ubig!(39614081257132168796771975169_), Some((|| ibig!(39614081257132168796771975169_), || ibig!(-39614081257132168796771975169_)))),
    ("79228162514264337593543950335", Some("ffffffffffffffffffffffff"), || ubig!(79228162514264337593543950335), None),
    ("0xffffffffffffffffffffffff", Some("ffffffffffffffffffffffff"), || ubig!(0xffffffffffffffffffffffff), None),
    ("0o77777777777777777777777777777777", Some("ffffffffffffffffffffffff"), || ubig!(0o77777777777777777777777777777777), Some((|| ibig!(0o77777777777777777777777777777777), || ibig!(-0o77777777777777777777777777777777)))),
    ("0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffff"), || ubig!(0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("0xFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffff"), || ubig!(0xFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("79228162514264337593543950335u128", Some("ffffffffffffffffffffffff"), || ubig!(79228162514264337593543950335u128), Some((|| ibig!(79228162514264337593543950335u128), || ibig!(-79228162514264337593543950335u128)))),
    ("0xffffffffffffffffffffffff_u128", Some("ffffffffffffffffffffffff"), || ubig!(0xffffffffffffffffffffffff_u128), None),
    ("0x0_ffffffffffffffffffffffff", Some("ffffffffffffffffffffffff"), || ubig!(0x0_ffffffffffffffffffffffff), None),
    ("0079228162514264337593543950335", Some("ffffffffffffffffffffffff"), || ubig!(0079228162514264337593543950335), Some((|| ibig!(0079228162514264337593543950335), || ibig!(-0079228162514264337593543950335)))),
    ("792_281_625_142_643_375_935_439_503_35", Some("ffffffffffffffffffffffff"), || ubig!(792_281_625_142_643_375_935_439_503_35), None),
    ("79228162514264337593543950335_", Some("ffffffffffffffffffffffff"), || ubig!(79228162514264337593543950335_), None),
    ("79228162514264337593543950336", Some("1000000000000000000000000"), || ubig!(79228162514264337593543950336), Some((|| ibig!(79228162514264337593543950336), || ibig!(-79228162514264337593543950336)))),
    ("0x1000000000000000000000000", Some("1000000000000000000000000"), || ubig!(0x1000000000000000000000000), None),
    ("0o100000000000000000000000000000000", Some("1000000000000000000000000"), || ubig!(0o100000000000000000000000000000000), None),
    ("0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("1000000000000000000000000"), || ubig!(0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("79228162514264337593543950336u128", Some("1000000000000000000000000"), || ubig!(79228162514264337593543950336u128), None),
    ("0x1000000000000000000000000_u128", Some("1000000000000000000000000"), || ubig!(0x1000000000000000000000000_u128), None),
    ("0x0_1000000000000000000000000", Some("1000000000000000000000000"), || ubig!(0x0_1000000000000000000000000), Some((|| ibig!(0x0_1000000000000000000000000), || ibig!(-0x0_1000000000000000000000000)))),
    ("0079228162514264337593543950336", Some("1000000000000000000000000"), || ubig!(0079228162514264337593543950336), None),
    ("792_281_625_142_643_375_935_439_503_36", Some("1000000000000000000000000"), || ubig!(792_281_625_142_643_375_935_439_503_36), None),
    ("79228162514264337593543950336_", Some("1000000000000000000000000"), || ubig!(79228162514264337593543950336_), Some((|| ibig!(79228162514264337593543950336_), || ibig!(-79228162514264337593543950336_)))),
    ("79228162514264337593543950337", Some("1000000000000000000000001"), || ubig!(79228162514264337593543950337), None),
    ("0x1000000000000000000000001", Some("1000000000000000000000001"), || ubig!(0x1000000000000000000000001), None),
    ("0o100000000000000000000000000000001", Some("1000000000000000000000001"), || ubig!(0o100000000000000000000000000000001), Some((|| ibig!(0o100000000000000000000000000000001), || ibig!(-0o100000000000000000000000000000001)))),
    ("0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("1000000000000000000000001"), || ubig!(0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("79228162514264337593543950337u128", Some("1000000000000000000000001"), || ubig!(79228162514264337593543950337u128), None),
    ("0x1000000000000000000000001_u128", Some("1000000000000000000000001"), || ubig!(0x1000000000000000000000001_u128), Some((|| ibig!(0x1000000000000000000000001_u128), || ibig!(-0x1000000000000000000000001_u128)))),
    ("0x0_1000000000000000000000001", Some("1000000000000000000000001"), || ubig!(0x0_1000000000000000000000001), None),
    ("0079228162514264337593543950337", Some("1000000000000000000000001"), || ubig!(0079228162514264337593543950337), None),
    ("792_281_625_142_643_375_935_439_503_37", Some("1000000000000000000000001"), || ubig!(792_281_625_142_643_375_935_439_503_37), Some((|| ibig!(792_281_625_142_643_375_935_439_503_37), || ibig!(-792_281_625_142_643_375_935_439_503_37)))),
    ("79228162514264337593543950337_", Some("1000000000000000000000001"), || ubig!(79228162514264337593543950337_), None),
    ("5192296858534827628530496329220095", Some("ffffffffffffffffffffffffffff"), || ubig!(5192296858534827628530496329220095), None),
    ("0xffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffff"), || ubig!(0xffffffffffffffffffffffffffff), Some((|| ibig!(0xffffffffffffffffffffffffffff), || ibig!(-0xffffffffffffffffffffffffffff)))),
    ("0o17777777777777777777777777777777777777", Some("ffffffffffffffffffffffffffff"), || ubig!(0o17777777777777777777777777777777777777), None),
    ("0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffffffff"), || ubig!(0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffffffff"), || ubig!(0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF), Some((|| ibig!(0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF), || ibig!(-0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF)))),
    ("5192296858534827628530496329220095u128", Some("ffffffffffffffffffffffffffff"), || ubig!(5192296858534827628530496329220095u128), None),
    ("0xffffffffffffffffffffffffffff_u128", Some("ffffffffffffffffffffffffffff"), || ubig!(0xffffffffffffffffffffffffffff_u128), None),
    ("0x0_ffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffff"), || ubig!(0x0_ffffffffffffffffffffffffffff), Some((|| ibig!(0x0_ffffffffffffffffffffffffffff), || ibig!(-0x0_ffffffffffffffffffffffffffff)))),
    ("005192296858534827628530496329220095", Some("ffffffffffffffffffffffffffff"), || ubig!(005192296858534827628530496329220095), None),
    ("519_229_685_853_482_762_853_049_632_922_009_5", Some("ffffffffffffffffffffffffffff"), || ubig!(519_229_685_853_482_762_853_049_632_922_009_5), None),
    ("5192296858534827628530496329220095_", Some("ffffffffffffffffffffffffffff"), || ubig!(5192296858534827628530496329220095_), Some((|| ibig!(5192296858534827628530496329220095_), || ibig!(-5192296858534827628530496329220095_)))),
    ("5192296858534827628530496329220096", Some("10000000000000000000000000000"), || ubig!(5192296858534827628530496329220096), None),
    ("0x10000000000000000000000000000", Some("10000000000000000000000000000"), || ubig!(0x10000000000000000000000000000), None),
    ("0o20000000000000000000000000000000000000", Some("10000000000000000000000000000"), || ubig!(0o20000000000000000000000000000000000000), Some((|| ibig!(0o20000000000000000000000000000000000000), || ibig!(-0o20000000000000000000000000000000000000)))),
    ("0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000000000000000"), || ubig!(0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("5192296858534827628530496329220096u128", Some("10000000000000000000000000000"), || ubig!(5192296858534827628530496329220096u128), None),
];
pub static PART4: &[Row] = &[
    ("0x10000000000000000000000000000_u128", Some("10000000000000000000000000000"), || ubig!(0x10000000000000000000000000000_u128), Some((|| ibig!(0x10000000000000000000000000000_u128), || ibig!(-0x10000000000000000000000000000_u128)))),
    ("0x0_10000000000000000000000000000", Some("10000000000000000000000000000"), || ubig!(0x0_10000000000000000000000000000), None),
    ("005192296858534827628530496329220096", Some("10000000000000000000000000000"), || ubig!(005192296858534827628530496329220096), None),
    ("519_229_685_853_482_762_853_049_632_922_009_6", Some("10000000000000000000000000000"), || ubig!(519_229_685_853_482_762_853_049_632_922_009_6), Some((|| ibig!(519_229_685_853_482_762_853_049_632_922_009_6), || ibig!(-519_229_685_853_482_762_853_049_632_922_009_6)))),
    ("5192296858534827628530496329220096_", Some("10000000000000000000000000000"), || ubig!(5192296858534827628530496329220096_), None),
    ("5192296858534827628530496329220097", Some("10000000000000000000000000001"), || ubig!(5192296858534827628530496329220097), None),
    ("0x10000000000000000000000000001", Some("10000000000000000000000000001"), || ubig!(0x10000000000000000000000000001), Some((|| ibig!(0x10000000000000000000000000001), || ibig!(-0x10000000000000000000000000001)))),
    ("0o20000000000000000000000000000000000001", Some("10000000000000000000000000001"), || ubig!(0o20000000000000000000000000000000000001), None),
    ("0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000000000000000001"), || ubig!(0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("5192296858534827628530496329220097u128", Some("10000000000000000000000000001"), || ubig!(5192296858534827628530496329220097u128), Some((|| ibig!(5192296858534827628530496329220097u128), || ibig!(-5192296858534827628530496329220097u128)))),
    ("0x10000000000000000000000000001_u128", Some("10000000000000000000000000001"), || ubig!(0x10000000000000000000000000001_u128), None),
    ("0x0_10000000000000000000000000001", Some("10000000000000000000000000001"), || ubig!(0x0_10000000000000000000000000001), None),
    ("005192296858534827628530496329220097", Some("10000000000000000000000000001"), || ubig!(005192296858534827628530496329220097), Some((|| ibig!(005192296858534827628530496329220097), || ibig!(-005192296858534827628530496329220097)))),
    ("519_229_685_853_482_762_853_049_632_922_009_7", Some("10000000000000000000000000001"), || ubig!(519_229_685_853_482_762_853_049_632_922_009_7), None),
    ("5192296858534827628530496329220097_", Some("10000000000000000000000000001"), || ubig!(5192296858534827628530496329220097_), None),
    ("170141183460469231731687303715884105727", Some("7fffffffffffffffffffffffffffffff"), || ubig!(170141183460469231731687303715884105727), Some((|| ibig!(170141183460469231731687303715884105727), || ibig!(-170141183460469231731687303715884105727)))),
    ("0x7fffffffffffffffffffffffffffffff", Some("7fffffffffffffffffffffffffffffff"), || ubig!(0x7fffffffffffffffffffffffffffffff), None),
    ("0o1777777777777777777777777777777777777777777", Some("7fffffffffffffffffffffffffffffff"), || ubig!(0o1777777777777777777777777777777777777777777), None),
    ("0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffffffffffffffffffff"), || ubig!(0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), Some((|| ibig!(0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), || ibig!(-0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111)))),
    ("0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("7fffffffffffffffffffffffffffffff"), || ubig!(0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("170141183460469231731687303715884105727u128", Some("7fffffffffffffffffffffffffffffff"), || ubig!(170141183460469231731687303715884105727u128), None),
    ("0x7fffffffffffffffffffffffffffffff_u128", Some("7fffffffffffffffffffffffffffffff"), || ubig!(0x7fffffffffffffffffffffffffffffff_u128), Some((|| ibig!(0x7fffffffffffffffffffffffffffffff_u128), || ibig!(-0x7fffffffffffffffffffffffffffffff_u128)))),
    ("0x0_7fffffffffffffffffffffffffffffff", Some("7fffffffffffffffffffffffffffffff"), || ubig!(0x0_7fffffffffffffffffffffffffffffff), None),
    ("00170141183460469231731687303715884105727", Some("7fffffffffffffffffffffffffffffff"), || ubig!(00170141183460469231731687303715884105727), None),
    ("170_141_183_460_469_231_731_687_303_715_884_105_727", Some("7fffffffffffffffffffffffffffffff"), || ubig!(170_141_183_460_469_231_731_687_303_715_884_105_727), Some((|| ibig!(170_141_183_460_469_231_731_687_303_715_884_105_727), || ibig!(-170_141_183_460_469_231_731_687_303_715_884_105_727)))),
    ("170141183460469231731687303715884105727_", Some("7fffffffffffffffffffffffffffffff"), || ubig!(170141183460469231731687303715884105727_), None),
    ("170141183460469231731687303715884105728", Some("80000000000000000000000000000000"), || ubig!(170141183460469231731687303715884105728), None),
    ("0x80000000000000000000000000000000", Some("80000000000000000000000000000000"), || ubig!(0x80000000000000000000000000000000), Some((|| ibig!(0x80000000000000000000000000000000), || ibig!(-0x80000000000000000000000000000000)))),
    ("0o2000000000000000000000000000000000000000000", Some("80000000000000000000000000000000"), || ubig!(0o2000000000000000000000000000000000000000000), None),
    ("0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("80000000000000000000000000000000"), || ubig!(0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("170141183460469231731687303715884105728u128", Some("80000000000000000000000000000000"), || ubig!(170141183460469231731687303715884105728u128), Some((|| ibig!(170141183460469231731687303715884105728u128), || ibig!(-170141183460469231731687303715884105728u128)))),
    ("0x80000000000000000000000000000000_u128", Some("80000000000000000000000000000000"), || ubig!(0x80000000000000000000000000000000_u128), None),
    ("0x0_80000000000000000000000000000000", Some("80000000000000000000000000000000"), || ubig!(0x0_80000000000000000000000000000000), None),
    ("00170141183460469231731687303715884105728", Some("80000000000000000000000000000000"), || ubig!(00170141183460469231731687303715884105728), Some((|| ibig!(00170141183460469231731687303715884105728), || ibig!(-00170141183460469231731687303715884105728)))),
    ("170_141_183_460_469_231_731_687_303_715_884_105_728", Some("80000000000000000000000000000000"), || ubig!(170_141_183_460_469_231_731_687_303_715_884_105_728), None),
    ("170141183460469231731687303715884105728_", Some("80000000000000000000000000000000"), || ubig!(170141183460469231731687303715884105728_), None),
    ("170141183460469231731687303715884105729", Some("80000000000000000000000000000001"), || ubig!(170141183460469231731687303715884105729), Some((|| ibig!(170141183460469231731687303715884105729), || ibig!(-170141183460469231731687303715884105729)))),
    ("0x80000000000000000000000000000001", Some("80000000000000000000000000000001"), || ubig!(0x80000000000000000000000000000001), None),
    ("0o2000000000000000000000000000000000000000001", Some("80000000000000000000000000000001"), || ubig!(0o2000000000000000000000000000000000000000001), None),
    ("0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("80000000000000000000000000000001"), || ubig!(0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("170141183460469231731687303715884105729u128", Some("80000000000000000000000000000001"), || ubig!(170141183460469231731687303715884105729u128), None),
    ("0x80000000000000000000000000000001_u128", Some("80000000000000000000000000000001"), || ubig!(0x80000000000000000000000000000001_u128), None),
    ("0x0_80000000000000000000000000000001", Some("80000000000000000000000000000001"), || ubig!(0x0_80000000000000000000000000000001), Some((|| ibig!(0x0_80000000000000000000000000000001), || ibig!(-0x0_80000000000000000000000000000001)))),
    ("00170141183460469231731687303715884105729", Some("80000000000000000000000000000001"), || ubig!(00170141183460469231731687303715884105729), None),
    ("170_141_183_460_469_231_731_687_303_715_884_105_729", Some("80000000000000000000000000000001"), || ubig!(170_141_183_460_469_231_731_687_303_715_884_105_729), None),
    ("170141183460469231731687303715884105729_", Some("80000000000000000000000000000001"), || ubig!(170141183460469231731687303715884105729_), Some((|| ibig!(170141183460469231731687303715884105729_), || ibig!(-170141183460469231731687303715884105729_)))),
    ("340282366920938463463374607431768211455", Some("ffffffffffffffffffffffffffffffff"), || ubig!(340282366920938463463374607431768211455), None),
    ("0xffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffff"), || ubig!(0xffffffffffffffffffffffffffffffff), None),
    ("0o3777777777777777777777777777777777777777777", Some("ffffffffffffffffffffffffffffffff"), || ubig!(0o3777777777777777777777777777777777777777777), Some((|| ibig!(0o3777777777777777777777777777777777777777777), || ibig!(-0o3777777777777777777777777777777777777777777)))),
    ("0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffffffffffff"), || ubig!(0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffffffffffff"), || ubig!(0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("340282366920938463463374607431768211455u128", Some("ffffffffffffffffffffffffffffffff"), || ubig!(340282366920938463463374607431768211455u128), Some((|| ibig!(340282366920938463463374607431768211455u128), || ibig!(-340282366920938463463374607431768211455u128)))),
    ("0xffffffffffffffffffffffffffffffff_u128", Some("ffffffffffffffffffffffffffffffff"), || ubig!(0xffffffffffffffffffffffffffffffff_u128), None),
    ("0x0_ffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffff"), || ubig!(0x0_ffffffffffffffffffffffffffffffff), None),
    ("00340282366920938463463374607431768211455", Some("ffffffffffffffffffffffffffffffff"), || ubig!(00340282366920938463463374607431768211455), Some((|| ibig!(00340282366920938463463374607431768211455), || ibig!(-00340282366920938463463374607431768211455)))),
    ("340_282_366_920_938_463_463_374_607_431_768_211_455", Some("ffffffffffffffffffffffffffffffff"), || ubig!(340_282_366_920_938_463_463_374_607_431_768_211_455), None),
    ("340282366920938463463374607431768211455_", Some("ffffffffffffffffffffffffffffffff"), || ubig!(340282366920938463463374607431768211455_), None),
    ("_0", Some("0"), || ubig!(_0), Some((|| ibig!(_0), || ibig!(-_0)))),
    ("_0x0", Some("0"), || ubig!(_0x0), None),
    ("_0o0", Some("0"), || ubig!(_0o0), None),
    ("_0b0", Some("0"), || ubig!(_0b0), Some((|| ibig!(_0b0), || ibig!(-_0b0)))),
    ("_0000", Some("0"), || ubig!(_0000), None),
    ("_0x000", Some("0"), || ubig!(_0x000), None),
    ("_1", Some("1"), || ubig!(_1), Some((|| ibig!(_1), || ibig!(-_1)))),
    ("_0x1", Some("1"), || ubig!(_0x1), None),
    ("_0o1", Some("1"), || ubig!(_0o1), None),
    ("_0b1", Some("1"), || ubig!(_0b1), Some((|| ibig!(_0b1), || ibig!(-_0b1)))),
    ("_0001", Some("1"), || ubig!(_0001), None),
    ("_0x001", Some("1"), || ubig!(_0x001), None),
    ("_2", Some("2"), || ubig!(_2), Some((|| ibig!(_2), || ibig!(-_2)))),
    ("_0x2", Some("2"), || ubig!(_0x2), None),
    ("_0o2", Some("2"), || ubig!(_0o2), None),
    ("_0b10", Some("2"), || ubig!(_0b10), Some((|| ibig!(_0b10), || ibig!(-_0b10)))),
    ("_0002", Some("2"), || ubig!(_0002), None),
    ("_0x002", Some("2"), || ubig!(_0x002), None),
    ("_3", Some("3"), || ubig!(_3), Some((|| ibig!(_3), || ibig!(-_3)))),
    ("_0x3", Some("3"), || ubig!(_0x3), None),
    ("_0o3", Some("3"), || ubig!(_0o3), None),
    ("_0b11", Some("3"), || ubig!(_0b11), Some((|| ibig!(_0b11), || ibig!(-_0b11)))),
    ("_0003", Some("3"), || ubig!(_0003), None),
    ("_0x003", Some("3"), || ubig!(_0x003), None),
    ("_7", Some("7"), || ubig!(_7), Some((|| ibig!(_7), || ibig!(-_7)))),
    ("_0x7", Some("7"), || ubig!(_0x7), None),
    ("_0o7", Some("7"), || ubig!(_0o7), None),
    ("_0b111", Some("7"), || ubig!(_0b111), Some((|| ibig!(_0b111), || ibig!(-_0b111)))),
    ("_0007", Some("7"), || ubig!(_0007), None),
    ("_0x007", Some("7"), || ubig!(_0x007), None),
    ("_8", Some("8"), || ubig!(_8), Some((|| ibig!(_8), || ibig!(-_8)))),
    ("_0x8", Some("8"), || ubig!(_0x8), None),
    ("_0o10", Some("8"), || ubig!(_0o10), None),
    ("_0b1000", Some("8"), || ubig!(_0b1000), Some((|| ibig!(_0b1000), || ibig!(-_0b1000)))),
    ("_0008", Some("8"), || ubig!(_0008), None),
    ("_0x008", Some("8"), || ubig!(_0x008), None),
    ("_9", Some("9"), || ubig!(_9), Some((|| ibig!(_9), || ibig!(-_9)))),
    ("_0x9", Some("9"), || ubig!(_0x9), None),
    ("_0o11", Some("9"), || ubig!(_0o11), None),
    ("_0b1001", Some("9"), || ubig!(_0b1001), Some((|| ibig!(_0b1001), || ibig!(-_0b1001)))),
    ("_0009", Some("9"), || ubig!(_0009), None),
    ("_0x009", Some("9"), || ubig!(_0x009), None),
    ("_127", Some("7f"), || ubig!(_127), Some((|| ibig!(_127), || ibig!(-_127)))),
    ("_0x7f", Some("7f"), || ubig!(_0x7f), None),
    ("_0o177", Some("7f"), || ubig!(_0o177), None),
    ("_0b1111111", Some("7f"), || ubig!(_0b1111111), Some((|| ibig!(_0b1111111), || ibig!(-_0b1111111)))),
    ("_0x7F", Some("7f"), || ubig!(_0x7F), None),
    ("_000127", Some("7f"), || ubig!(_000127), None),
    ("_0x007f", Some("7f"), || ubig!(_0x007f), Some((|| ibig!(_0x007f), || ibig!(-_0x007f)))),
    ("_128", Some("80"), || ubig!(_128), None),
    ("_0x80", Some("80"), || ubig!(_0x80), None),
    ("_0o200", Some("80"), || ubig!(_0o200), Some((|| ibig!(_0o200), || ibig!(-_0o200)))),
    ("_0b10000000", Some("80"), || ubig!(_0b10000000), None),
    ("_000128", Some("80"), || ubig!(_000128), None),
    ("_0x0080", Some("80"), || ubig!(_0x0080), Some((|| ibig!(_0x0080), || ibig!(-_0x0080)))),
    ("_129", Some("81"), || ubig!(_129), None),
    ("_0x81", Some("81"), || ubig!(_0x81), None),
    ("_0o201", Some("81"), || ubig!(_0o201), Some((|| ibig!(_0o201), || ibig!(-_0o201)))),
    ("_0b10000001", Some("81"), || ubig!(_0b10000001), None),
    ("_000129", Some("81"), || ubig!(_000129), None),
    ("_0x0081", Some("81"), || ubig!(_0x0081), Some((|| ibig!(_0x0081), || ibig!(-_0x0081)))),
    ("_255", Some("ff"), || ubig!(_255), None),
    ("_0xff", Some("ff"), || ubig!(_0xff), None),
    ("_0o377", Some("ff"), || ubig!(_0o377), Some((|| ibig!(_0o377), || ibig!(-_0o377)))),
    ("_0b11111111", Some("ff"), || ubig!(_0b11111111), None),
    ("_0xFF", Some("ff"), || ubig!(_0xFF), None),
    ("_000255", Some("ff"), || ubig!(_000255), Some((|| ibig!(_000255), || ibig!(-_000255)))),
    ("_0x00ff", Some("ff"), || ubig!(_0x00ff), None),
    ("_256", Some("100"), || ubig!(_256), None),
    ("_0x100", Some("100"), || ubig!(_0x100), Some((|| ibig!(_0x100), || ibig!(-_0x100)))),
    ("_0o400", Some("100"), || ubig!(_0o400), None),
    ("_0b100000000", Some("100"), || ubig!(_0b100000000), None),
    ("_000256", Some("100"), || ubig!(_000256), Some((|| ibig!(_000256), || ibig!(-_000256)))),
    ("_0x00100", Some("100"), || ubig!(_0x00100), None),
    ("_257", Some("101"), || ubig!(_257), None),
    ("_0x101", Some("101"), || ubig!(_0x101), Some((|| ibig!(_0x101), || ibig!(-_0x101)))),
    ("_0o401", Some("101"), || ubig!(_0o401), None),
    ("_0b100000001", Some("101"), || ubig!(_0b100000001), None),
    ("_000257", Some("101"), || ubig!(_000257), Some((|| ibig!(_000257), || ibig!(-_000257)))),
    ("_0x00101", Some("101"), || ubig!(_0x00101), None),
    ("_32767", Some("7fff"), || ubig!(_32767), None),
    ("_0x7fff", Some("7fff"), || ubig!(_0x7fff), Some((|| ibig!(_0x7fff), || ibig!(-_0x7fff)))),
    ("_0o77777", Some("7fff"), || ubig!(_0o77777), None),
    ("_0b111111111111111", Some("7fff"), || ubig!(_0b111111111111111), None),
    ("_0x7FFF", Some("7fff"), || ubig!(_0x7FFF), Some((|| ibig!(_0x7FFF), || ibig!(-_0x7FFF)))),
    ("_00032767", Some("7fff"), || ubig!(_00032767), None),
    ("_0x007fff", Some("7fff"), || ubig!(_0x007fff), None),
    ("_32768", Some("8000"), || ubig!(_32768), Some((|| ibig!(_32768), || ibig!(-_32768)))),
    ("_0x8000", Some("8000"), || ubig!(_0x8000), None),
    ("_0o100000", Some("8000"), || ubig!(_0o100000), None),
    ("_0b1000000000000000", Some("8000"), || ubig!(_0b1000000000000000), Some((|| ibig!(_0b1000000000000000), || ibig!(-_0b1000000000000000)))),
    ("_00032768", Some("8000"), || ubig!(_00032768), None),
    ("_0x008000", Some("8000"), || ubig!(_0x008000), None),
];
pub static PART5: &[Row] = &[
    ("_32769", Some("8001"), || ubig!(_32769), Some((|| ibig!(_32769), || ibig!(-_32769)))),
    ("_0x8001", Some("8001"), || ubig!(_0x8001), None),
    ("_0o100001", Some("8001"), || ubig!(_0o100001), None),
    ("_0b1000000000000001", Some("8001"), || ubig!(_0b1000000000000001), Some((|| ibig!(_0b1000000000000001), || ibig!(-_0b1000000000000001)))),
    ("_00032769", Some("8001"), || ubig!(_00032769), None),
    ("_0x008001", Some("8001"), || ubig!(_0x008001), None),
    ("_65535", Some("ffff"), || ubig!(_65535), Some((|| ibig!(_65535), || ibig!(-_65535)))),
    ("_0xffff", Some("ffff"), || ubig!(_0xffff), None),
    ("_0o177777", Some("ffff"), || ubig!(_0o177777), None),
    ("_0b1111111111111111", Some("ffff"), || ubig!(_0b1111111111111111), Some((|| ibig!(_0b1111111111111111), || ibig!(-_0b1111111111111111)))),
    ("_0xFFFF", Some("ffff"), || ubig!(_0xFFFF), None),
    ("_00065535", Some("ffff"), || ubig!(_00065535), None),
    ("_0x00ffff", Some("ffff"), || ubig!(_0x00ffff), Some((|| ibig!(_0x00ffff), || ibig!(-_0x00ffff)))),
    ("_65536", Some("10000"), || ubig!(_65536), None),
    ("_0x10000", Some("10000"), || ubig!(_0x10000), None),
    ("_0o200000", Some("10000"), || ubig!(_0o200000), Some((|| ibig!(_0o200000), || ibig!(-_0o200000)))),
    ("_0b10000000000000000", Some("10000"), || ubig!(_0b10000000000000000), None),
    ("_00065536", Some("10000"), || ubig!(_00065536), None),
    ("_0x0010000", Some("10000"), || ubig!(_0x0010000), Some((|| ibig!(_0x0010000), || ibig!(-_0x0010000)))),
    ("_65537", Some("10001"), || ubig!(_65537), None),
    ("_0x10001", Some("10001"), || ubig!(_0x10001), None),
    ("_0o200001", Some("10001"), || ubig!(_0o200001), Some((|| ibig!(_0o200001), || ibig!(-_0o200001)))),
    ("_0b10000000000000001", Some("10001"), || ubig!(_0b10000000000000001), None),
    ("_00065537", Some("10001"), || ubig!(_00065537), None),
    ("_0x0010001", Some("10001"), || ubig!(_0x0010001), Some((|| ibig!(_0x0010001), || ibig!(-_0x0010001)))),
    ("_131071", Some("1ffff"), || ubig!(_131071), None),
    ("_0x1ffff", Some("1ffff"), || ubig!(_0x1ffff), None),
    ("_0o377777", Some("1ffff"), || ubig!(_0o377777), Some((|| ibig!(_0o377777), || ibig!(-_0o377777)))),
    ("_0b11111111111111111", Some("1ffff"), || ubig!(_0b11111111111111111), None),
    ("_0x1FFFF", Some("1ffff"), || ubig!(_0x1FFFF), None),
    ("_000131071", Some("1ffff"), || ubig!(_000131071), Some((|| ibig!(_000131071), || ibig!(-_000131071)))),
    ("_0x001ffff", Some("1ffff"), || ubig!(_0x001ffff), None),
    ("_131072", Some("20000"), || ubig!(_131072), None),
    ("_0x20000", Some("20000"), || ubig!(_0x20000), Some((|| ibig!(_0x20000), || ibig!(-_0x20000)))),
    ("_0o400000", Some("20000"), || ubig!(_0o400000), None),
    ("_0b100000000000000000", Some("20000"), || ubig!(_0b100000000000000000), None),
    ("_000131072", Some("20000"), || ubig!(_000131072), Some((|| ibig!(_000131072), || ibig!(-_000131072)))),
    ("_0x0020000", Some("20000"), || ubig!(_0x0020000), None),
    ("_131073", Some("20001"), || ubig!(_131073), None),
    ("_0x20001", Some("20001"), || ubig!(_0x20001), Some((|| ibig!(_0x20001), || ibig!(-_0x20001)))),
    ("_0o400001", Some("20001"), || ubig!(_0o400001), None),
    ("_0b100000000000000001", Some("20001"), || ubig!(_0b100000000000000001), None),
    ("_000131073", Some("20001"), || ubig!(_000131073), Some((|| ibig!(_000131073), || ibig!(-_000131073)))),
    ("_0x0020001", Some("20001"), || ubig!(_0x0020001), None),
    ("_2147483647", Some("7fffffff"), || ubig!(_2147483647), None),
    ("_0x7fffffff", Some("7fffffff"), || ubig!(_0x7fffffff), Some((|| ibig!(_0x7fffffff), || ibig!(-_0x7fffffff)))),
    ("_0o17777777777", Some("7fffffff"), || ubig!(_0o17777777777), None),
    ("_0b1111111111111111111111111111111", Some("7fffffff"), || ubig!(_0b1111111111111111111111111111111), None),
    ("_0x7FFFFFFF", Some("7fffffff"), || ubig!(_0x7FFFFFFF), Some((|| ibig!(_0x7FFFFFFF), || ibig!(-_0x7FFFFFFF)))),
    ("_0002147483647", Some("7fffffff"), || ubig!(_0002147483647), None),
    ("_0x007fffffff", Some("7fffffff"), || ubig!(_0x007fffffff), None),
    ("_2147483648", Some("80000000"), || ubig!(_2147483648), Some((|| ibig!(_2147483648), || ibig!(-_2147483648)))),
    ("_0x80000000", Some("80000000"), || ubig!(_0x80000000), None),
    ("_0o20000000000", Some("80000000"), || ubig!(_0o20000000000), None),
    ("_0b10000000000000000000000000000000", Some("80000000"), || ubig!(_0b10000000000000000000000000000000), Some((|| ibig!(_0b10000000000000000000000000000000), || ibig!(-_0b10000000000000000000000000000000)))),
    ("_0002147483648", Some("80000000"), || ubig!(_0002147483648), None),
    ("_0x0080000000", Some("80000000"), || ubig!(_0x0080000000), None),
    ("_2147483649", Some("80000001"), || ubig!(_2147483649), Some((|| ibig!(_2147483649), || ibig!(-_2147483649)))),
    ("_0x80000001", Some("80000001"), || ubig!(_0x80000001), None),
    ("_0o20000000001", Some("80000001"), || ubig!(_0o20000000001), None),
    ("_0b10000000000000000000000000000001", Some("80000001"), || ubig!(_0b10000000000000000000000000000001), Some((|| ibig!(_0b10000000000000000000000000000001), || ibig!(-_0b10000000000000000000000000000001)))),
    ("_0002147483649", Some("80000001"), || ubig!(_0002147483649), None),
    ("_0x0080000001", Some("80000001"), || ubig!(_0x0080000001), None),
    ("_4294967295", Some("ffffffff"), || ubig!(_4294967295), Some((|| ibig!(_4294967295), || ibig!(-_4294967295)))),
    ("_0xffffffff", Some("ffffffff"), || ubig!(_0xffffffff), None),
    ("_0o37777777777", Some("ffffffff"), || ubig!(_0o37777777777), None),
    ("_0b11111111111111111111111111111111", Some("ffffffff"), || ubig!(_0b11111111111111111111111111111111), Some((|| ibig!(_0b11111111111111111111111111111111), || ibig!(-_0b11111111111111111111111111111111)))),
    ("_0xFFFFFFFF", Some("ffffffff"), || ubig!(_0xFFFFFFFF), None),
    ("_0004294967295", Some("ffffffff"), || ubig!(_0004294967295), None),
    ("_0x00ffffffff", Some("ffffffff"), || ubig!(_0x00ffffffff), Some((|| ibig!(_0x00ffffffff), || ibig!(-_0x00ffffffff)))),
    ("_4294967296", Some("100000000"), || ubig!(_4294967296), None),
    ("_0x100000000", Some("100000000"), || ubig!(_0x100000000), None),
    ("_0o40000000000", Some("100000000"), || ubig!(_0o40000000000), Some((|| ibig!(_0o40000000000), || ibig!(-_0o40000000000)))),
    ("_0b100000000000000000000000000000000", Some("100000000"), || ubig!(_0b100000000000000000000000000000000), None),
    ("_0004294967296", Some("100000000"), || ubig!(_0004294967296), None),
    ("_0x00100000000", Some("100000000"), || ubig!(_0x00100000000), Some((|| ibig!(_0x00100000000), || ibig!(-_0x00100000000)))),
    ("_4294967297", Some("100000001"), || ubig!(_4294967297), None),
    ("_0x100000001", Some("100000001"), || ubig!(_0x100000001), None),
    ("_0o40000000001", Some("100000001"), || ubig!(_0o40000000001), Some((|| ibig!(_0o40000000001), || ibig!(-_0o40000000001)))),
    ("_0b100000000000000000000000000000001", Some("100000001"), || ubig!(_0b100000000000000000000000000000001), None),
    ("_0004294967297", Some("100000001"), || ubig!(_0004294967297), None),
    ("_0x00100000001", Some("100000001"), || ubig!(_0x00100000001), Some((|| ibig!(_0x00100000001), || ibig!(-_0x00100000001)))),
    ("_8589934591", Some("1ffffffff"), || ubig!(_8589934591), None),
    ("_0x1ffffffff", Some("1ffffffff"), || ubig!(_0x1ffffffff), None),
    ("_0o77777777777", Some("1ffffffff"), || ubig!(_0o77777777777), Some((|| ibig!(_0o77777777777), || ibig!(-_0o77777777777)))),
    ("_0b111111111111111111111111111111111", Some("1ffffffff"), || ubig!(_0b111111111111111111111111111111111), None),
    ("_0x1FFFFFFFF", Some("1ffffffff"), || ubig!(_0x1FFFFFFFF), None),
    ("_0008589934591", Some("1ffffffff"), || ubig!(_0008589934591), Some((|| ibig!(_0008589934591), || ibig!(-_0008589934591)))),
    ("_0x001ffffffff", Some("1ffffffff"), || ubig!(_0x001ffffffff), None),
    ("_8589934592", Some("200000000"), || ubig!(_8589934592), None),
    ("_0x200000000", Some("200000000"), || ubig!(_0x200000000), Some((|| ibig!(_0x200000000), || ibig!(-_0x200000000)))),
    ("_0o100000000000", Some("200000000"), || ubig!(_0o100000000000), None),
    ("_0b1000000000000000000000000000000000", Some("200000000"), || ubig!(_0b1000000000000000000000000000000000), None),
    ("_0008589934592", Some("200000000"), || ubig!(_0008589934592), Some((|| ibig!(_0008589934592), || ibig!(-_0008589934592)))),
    ("_0x00200000000", Some("200000000"), || ubig!(_0x00200000000), None),
    ("_8589934593", Some("200000001"), || ubig!(_8589934593), None),
    ("_0x200000001", Some("200000001"), || ubig!(_0x200000001), Some((|| ibig!(_0x200000001), || ibig!(-_0x200000001)))),
    ("_0o100000000001", Some("200000001"), || ubig!(_0o100000000001), None),
    ("_0b1000000000000000000000000000000001", Some("200000001"), || ubig!(_0b1000000000000000000000000000000001), None),
    ("_0008589934593", Some("200000001"), || ubig!(_0008589934593), Some((|| ibig!(_0008589934593), || ibig!(-_0008589934593)))),
    ("_0x00200000001", Some("200000001"), || ubig!(_0x00200000001), None),
    ("_140737488355327", Some("7fffffffffff"), || ubig!(_140737488355327), None),
    ("_0x7fffffffffff", Some("7fffffffffff"), || ubig!(_0x7fffffffffff), Some((|| ibig!(_0x7fffffffffff), || ibig!(-_0x7fffffffffff)))),
    ("_0o3777777777777777", Some("7fffffffffff"), || ubig!(_0o3777777777777777), None),
    ("_0b11111111111111111111111111111111111111111111111", Some("7fffffffffff"), || ubig!(_0b11111111111111111111111111111111111111111111111), None),
    ("_0x7FFFFFFFFFFF", Some("7fffffffffff"), || ubig!(_0x7FFFFFFFFFFF), Some((|| ibig!(_0x7FFFFFFFFFFF), || ibig!(-_0x7FFFFFFFFFFF)))),
    ("_000140737488355327", Some("7fffffffffff"), || ubig!(_000140737488355327), None),
    ("_0x007fffffffffff", Some("7fffffffffff"), || ubig!(_0x007fffffffffff), None),
    ("_140737488355328", Some("800000000000"), || ubig!(_140737488355328), Some((|| ibig!(_140737488355328), || ibig!(-_140737488355328)))),
    ("_0x800000000000", Some("800000000000"), || ubig!(_0x800000000000), None),
    ("_0o4000000000000000", Some("800000000000"), || ubig!(_0o4000000000000000), None),
    ("_0b100000000000000000000000000000000000000000000000", Some("800000000000"), || ubig!(_0b100000000000000000000000000000000000000000000000), Some((|| ibig!(_0b100000000000000000000000000000000000000000000000), || ibig!(-_0b100000000000000000000000000000000000000000000000)))),
    ("_000140737488355328", Some("800000000000"), || ubig!(_000140737488355328), None),
    ("_0x00800000000000", Some("800000000000"), || ubig!(_0x00800000000000), None),
    ("_140737488355329", Some("800000000001"), || ubig!(_140737488355329), Some((|| ibig!(_140737488355329), || ibig!(-_140737488355329)))),
    ("_0x800000000001", Some("800000000001"), || ubig!(_0x800000000001), None),
    ("_0o4000000000000001", Some("800000000001"), || ubig!(_0o4000000000000001), None),
    ("_0b100000000000000000000000000000000000000000000001", Some("800000000001"), || ubig!(_0b100000000000000000000000000000000000000000000001), Some((|| ibig!(_0b100000000000000000000000000000000000000000000001), || ibig!(-_0b100000000000000000000000000000000000000000000001)))),
    ("_000140737488355329", Some("800000000001"), || ubig!(_000140737488355329), None),
    ("_0x00800000000001", Some("800000000001"), || ubig!(_0x00800000000001), None),
    ("_281474976710655", Some("ffffffffffff"), || ubig!(_281474976710655), Some((|| ibig!(_281474976710655), || ibig!(-_281474976710655)))),
    ("_0xffffffffffff", Some("ffffffffffff"), || ubig!(_0xffffffffffff), None),
    ("_0o7777777777777777", Some("ffffffffffff"), || ubig!(_0o7777777777777777), None),
    ("_0b111111111111111111111111111111111111111111111111", Some("ffffffffffff"), || ubig!(_0b111111111111111111111111111111111111111111111111), Some((|| ibig!(_0b111111111111111111111111111111111111111111111111), || ibig!(-_0b111111111111111111111111111111111111111111111111)))),
    ("_0xFFFFFFFFFFFF", Some("ffffffffffff"), || ubig!(_0xFFFFFFFFFFFF), None),
    ("_000281474976710655", Some("ffffffffffff"), || ubig!(_000281474976710655), None),
    ("_0x00ffffffffffff", Some("ffffffffffff"), || ubig!(_0x00ffffffffffff), Some((|| ibig!(_0x00ffffffffffff), || ibig!(-_0x00ffffffffffff)))),
    ("_281474976710656", Some("1000000000000"), || ubig!(_281474976710656), None),
    ("_0x1000000000000", Some("1000000000000"), || ubig!(_0x1000000000000), None),
    ("_0o10000000000000000", Some("1000000000000"), || ubig!(_0o10000000000000000), Some((|| ibig!(_0o10000000000000000), || ibig!(-_0o10000000000000000)))),
    ("_0b1000000000000000000000000000000000000000000000000", Some("1000000000000"), || ubig!(_0b1000000000000000000000000000000000000000000000000), None),
    ("_000281474976710656", Some("1000000000000"), || ubig!(_000281474976710656), None),
    ("_0x001000000000000", Some("1000000000000"), || ubig!(_0x001000000000000), Some((|| ibig!(_0x001000000000000), || ibig!(-_0x001000000000000)))),
    ("_281474976710657", Some("1000000000001"), || ubig!(_281474976710657), None),
    ("_0x1000000000001", Some("1000000000001"), || ubig!(_0x1000000000001), None),
    ("_0o10000000000000001", Some("1000000000001"), || ubig!(_0o10000000000000001), Some((|| ibig!(_0o10000000000000001), || ibig!(-_0o10000000000000001)))),
    ("_0b1000000000000000000000000000000000000000000000001", Some("1000000000001"), || ubig!(_0b1000000000000000000000000000000000000000000000001), None),
    ("_000281474976710657", Some("1000000000001"), || ubig!(_000281474976710657), None),
    ("_0x001000000000001", Some("1000000000001"), || ubig!(_0x001000000000001), Some((|| ibig!(_0x001000000000001), || ibig!(-_0x001000000000001)))),
    ("_9223372036854775807", Some("7fffffffffffffff"), || ubig!(_9223372036854775807), None),
    ("_0x7fffffffffffffff", Some("7fffffffffffffff"), || ubig!(_0x7fffffffffffffff), None),
    ("_0o777777777777777777777", Some("7fffffffffffffff"), || ubig!(_0o777777777777777777777), Some((|| ibig!(_0o777777777777777777777), || ibig!(-_0o777777777777777777777)))),
    ("_0b111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffff"), || ubig!(_0b111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0x7FFFFFFFFFFFFFFF", Some("7fffffffffffffff"), || ubig!(_0x7FFFFFFFFFFFFFFF), None),
    ("_0009223372036854775807", Some("7fffffffffffffff"), || ubig!(_0009223372036854775807), Some((|| ibig!(_0009223372036854775807), || ibig!(-_0009223372036854775807)))),
    ("_0x007fffffffffffffff", Some("7fffffffffffffff"), || ubig!(_0x007fffffffffffffff), None),
    ("_9223372036854775808", Some("8000000000000000"), || ubig!(_9223372036854775808), None),
    ("_0x8000000000000000", Some("8000000000000000"), || ubig!(_0x8000000000000000), Some((|| ibig!(_0x8000000000000000), || ibig!(-_0x8000000000000000)))),
    ("_0o1000000000000000000000", Some("8000000000000000"), || ubig!(_0o1000000000000000000000), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000", Some("8000000000000000"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000), None),
];
pub static PART6: &[Row] = &[
    ("_0009223372036854775808", Some("8000000000000000"), || ubig!(_0009223372036854775808), Some((|| ibig!(_0009223372036854775808), || ibig!(-_0009223372036854775808)))),
    ("_0x008000000000000000", Some("8000000000000000"), || ubig!(_0x008000000000000000), None),
    ("_9223372036854775809", Some("8000000000000001"), || ubig!(_9223372036854775809), None),
    ("_0x8000000000000001", Some("8000000000000001"), || ubig!(_0x8000000000000001), Some((|| ibig!(_0x8000000000000001), || ibig!(-_0x8000000000000001)))),
    ("_0o1000000000000000000001", Some("8000000000000001"), || ubig!(_0o1000000000000000000001), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000001", Some("8000000000000001"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0009223372036854775809", Some("8000000000000001"), || ubig!(_0009223372036854775809), Some((|| ibig!(_0009223372036854775809), || ibig!(-_0009223372036854775809)))),
    ("_0x008000000000000001", Some("8000000000000001"), || ubig!(_0x008000000000000001), None),
    ("_18446744073709551615", Some("ffffffffffffffff"), || ubig!(_18446744073709551615), None),
    ("_0xffffffffffffffff", Some("ffffffffffffffff"), || ubig!(_0xffffffffffffffff), Some((|| ibig!(_0xffffffffffffffff), || ibig!(-_0xffffffffffffffff)))),
    ("_0o1777777777777777777777", Some("ffffffffffffffff"), || ubig!(_0o1777777777777777777777), None),
    ("_0b1111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffff"), || ubig!(_0b1111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0xFFFFFFFFFFFFFFFF", Some("ffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFF), Some((|| ibig!(_0xFFFFFFFFFFFFFFFF), || ibig!(-_0xFFFFFFFFFFFFFFFF)))),
    ("_00018446744073709551615", Some("ffffffffffffffff"), || ubig!(_00018446744073709551615), None),
    ("_0x00ffffffffffffffff", Some("ffffffffffffffff"), || ubig!(_0x00ffffffffffffffff), None),
    ("_18446744073709551616", Some("10000000000000000"), || ubig!(_18446744073709551616), Some((|| ibig!(_18446744073709551616), || ibig!(-_18446744073709551616)))),
    ("_0x10000000000000000", Some("10000000000000000"), || ubig!(_0x10000000000000000), None),
    ("_0o2000000000000000000000", Some("10000000000000000"), || ubig!(_0o2000000000000000000000), None),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0b10000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0b10000000000000000000000000000000000000000000000000000000000000000)))),
    ("_00018446744073709551616", Some("10000000000000000"), || ubig!(_00018446744073709551616), None),
    ("_0x0010000000000000000", Some("10000000000000000"), || ubig!(_0x0010000000000000000), None),
    ("_18446744073709551617", Some("10000000000000001"), || ubig!(_18446744073709551617), Some((|| ibig!(_18446744073709551617), || ibig!(-_18446744073709551617)))),
    ("_0x10000000000000001", Some("10000000000000001"), || ubig!(_0x10000000000000001), None),
    ("_0o2000000000000000000001", Some("10000000000000001"), || ubig!(_0o2000000000000000000001), None),
    ("_0b10000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000001"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0b10000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0b10000000000000000000000000000000000000000000000000000000000000001)))),
    ("_00018446744073709551617", Some("10000000000000001"), || ubig!(_00018446744073709551617), None),
    ("_0x0010000000000000001", Some("10000000000000001"), || ubig!(_0x0010000000000000001), None),
    ("_36893488147419103231", Some("1ffffffffffffffff"), || ubig!(_36893488147419103231), Some((|| ibig!(_36893488147419103231), || ibig!(-_36893488147419103231)))),
    ("_0x1ffffffffffffffff", Some("1ffffffffffffffff"), || ubig!(_0x1ffffffffffffffff), None),
    ("_0o3777777777777777777777", Some("1ffffffffffffffff"), || ubig!(_0o3777777777777777777777), None),
    ("_0b11111111111111111111111111111111111111111111111111111111111111111", Some("1ffffffffffffffff"), || ubig!(_0b11111111111111111111111111111111111111111111111111111111111111111), Some((|| ibig!(_0b11111111111111111111111111111111111111111111111111111111111111111), || ibig!(-_0b11111111111111111111111111111111111111111111111111111111111111111)))),
    ("_0x1FFFFFFFFFFFFFFFF", Some("1ffffffffffffffff"), || ubig!(_0x1FFFFFFFFFFFFFFFF), None),
    ("_00036893488147419103231", Some("1ffffffffffffffff"), || ubig!(_00036893488147419103231), None),
    ("_0x001ffffffffffffffff", Some("1ffffffffffffffff"), || ubig!(_0x001ffffffffffffffff), Some((|| ibig!(_0x001ffffffffffffffff), || ibig!(-_0x001ffffffffffffffff)))),
    ("_36893488147419103232", Some("20000000000000000"), || ubig!(_36893488147419103232), None),
    ("_0x20000000000000000", Some("20000000000000000"), || ubig!(_0x20000000000000000), None),
    ("_0o4000000000000000000000", Some("20000000000000000"), || ubig!(_0o4000000000000000000000), Some((|| ibig!(_0o4000000000000000000000), || ibig!(-_0o4000000000000000000000)))),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000", Some("20000000000000000"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000), None),
    ("_00036893488147419103232", Some("20000000000000000"), || ubig!(_00036893488147419103232), None),
    ("_0x0020000000000000000", Some("20000000000000000"), || ubig!(_0x0020000000000000000), Some((|| ibig!(_0x0020000000000000000), || ibig!(-_0x0020000000000000000)))),
    ("_36893488147419103233", Some("20000000000000001"), || ubig!(_36893488147419103233), None),
    ("_0x20000000000000001", Some("20000000000000001"), || ubig!(_0x20000000000000001), None),
    ("_0o4000000000000000000001", Some("20000000000000001"), || ubig!(_0o4000000000000000000001), Some((|| ibig!(_0o4000000000000000000001), || ibig!(-_0o4000000000000000000001)))),
    ("_0b100000000000000000000000000000000000000000000000000000000000000001", Some("20000000000000001"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000001), None),
    ("_00036893488147419103233", Some("20000000000000001"), || ubig!(_00036893488147419103233), None),
    ("_0x0020000000000000001", Some("20000000000000001"), || ubig!(_0x0020000000000000001), Some((|| ibig!(_0x0020000000000000001), || ibig!(-_0x0020000000000000001)))),
    ("_604462909807314587353087", Some("7fffffffffffffffffff"), || ubig!(_604462909807314587353087), None),
    ("_0x7fffffffffffffffffff", Some("7fffffffffffffffffff"), || ubig!(_0x7fffffffffffffffffff), None),
    ("_0o177777777777777777777777777", Some("7fffffffffffffffffff"), || ubig!(_0o177777777777777777777777777), Some((|| ibig!(_0o177777777777777777777777777), || ibig!(-_0o177777777777777777777777777)))),
    ("_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffffffff"), || ubig!(_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0x7FFFFFFFFFFFFFFFFFFF", Some("7fffffffffffffffffff"), || ubig!(_0x7FFFFFFFFFFFFFFFFFFF), None),
    ("_000604462909807314587353087", Some("7fffffffffffffffffff"), || ubig!(_000604462909807314587353087), Some((|| ibig!(_000604462909807314587353087), || ibig!(-_000604462909807314587353087)))),
    ("_0x007fffffffffffffffffff", Some("7fffffffffffffffffff"), || ubig!(_0x007fffffffffffffffffff), None),
    ("_604462909807314587353088", Some("80000000000000000000"), || ubig!(_604462909807314587353088), None),
    ("_0x80000000000000000000", Some("80000000000000000000"), || ubig!(_0x80000000000000000000), Some((|| ibig!(_0x80000000000000000000), || ibig!(-_0x80000000000000000000)))),
    ("_0o200000000000000000000000000", Some("80000000000000000000"), || ubig!(_0o200000000000000000000000000), None),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("80000000000000000000"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_000604462909807314587353088", Some("80000000000000000000"), || ubig!(_000604462909807314587353088), Some((|| ibig!(_000604462909807314587353088), || ibig!(-_000604462909807314587353088)))),
    ("_0x0080000000000000000000", Some("80000000000000000000"), || ubig!(_0x0080000000000000000000), None),
    ("_604462909807314587353089", Some("80000000000000000001"), || ubig!(_604462909807314587353089), None),
    ("_0x80000000000000000001", Some("80000000000000000001"), || ubig!(_0x80000000000000000001), Some((|| ibig!(_0x80000000000000000001), || ibig!(-_0x80000000000000000001)))),
    ("_0o200000000000000000000000001", Some("80000000000000000001"), || ubig!(_0o200000000000000000000000001), None),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("80000000000000000001"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_000604462909807314587353089", Some("80000000000000000001"), || ubig!(_000604462909807314587353089), Some((|| ibig!(_000604462909807314587353089), || ibig!(-_000604462909807314587353089)))),
    ("_0x0080000000000000000001", Some("80000000000000000001"), || ubig!(_0x0080000000000000000001), None),
    ("_1208925819614629174706175", Some("ffffffffffffffffffff"), || ubig!(_1208925819614629174706175), None),
    ("_0xffffffffffffffffffff", Some("ffffffffffffffffffff"), || ubig!(_0xffffffffffffffffffff), Some((|| ibig!(_0xffffffffffffffffffff), || ibig!(-_0xffffffffffffffffffff)))),
    ("_0o377777777777777777777777777", Some("ffffffffffffffffffff"), || ubig!(_0o377777777777777777777777777), None),
    ("_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffff"), || ubig!(_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0xFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFF), Some((|| ibig!(_0xFFFFFFFFFFFFFFFFFFFF), || ibig!(-_0xFFFFFFFFFFFFFFFFFFFF)))),
    ("_0001208925819614629174706175", Some("ffffffffffffffffffff"), || ubig!(_0001208925819614629174706175), None),
    ("_0x00ffffffffffffffffffff", Some("ffffffffffffffffffff"), || ubig!(_0x00ffffffffffffffffffff), None),
    ("_1208925819614629174706176", Some("100000000000000000000"), || ubig!(_1208925819614629174706176), Some((|| ibig!(_1208925819614629174706176), || ibig!(-_1208925819614629174706176)))),
    ("_0x100000000000000000000", Some("100000000000000000000"), || ubig!(_0x100000000000000000000), None),
    ("_0o400000000000000000000000000", Some("100000000000000000000"), || ubig!(_0o400000000000000000000000000), None),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("_0001208925819614629174706176", Some("100000000000000000000"), || ubig!(_0001208925819614629174706176), None),
    ("_0x00100000000000000000000", Some("100000000000000000000"), || ubig!(_0x00100000000000000000000), None),
    ("_1208925819614629174706177", Some("100000000000000000001"), || ubig!(_1208925819614629174706177), Some((|| ibig!(_1208925819614629174706177), || ibig!(-_1208925819614629174706177)))),
    ("_0x100000000000000000001", Some("100000000000000000001"), || ubig!(_0x100000000000000000001), None),
    ("_0o400000000000000000000000001", Some("100000000000000000001"), || ubig!(_0o400000000000000000000000001), None),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000001"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0b100000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("_0001208925819614629174706177", Some("100000000000000000001"), || ubig!(_0001208925819614629174706177), None),
    ("_0x00100000000000000000001", Some("100000000000000000001"), || ubig!(_0x00100000000000000000001), None),
    ("_39614081257132168796771975167", Some("7fffffffffffffffffffffff"), || ubig!(_39614081257132168796771975167), Some((|| ibig!(_39614081257132168796771975167), || ibig!(-_39614081257132168796771975167)))),
    ("_0x7fffffffffffffffffffffff", Some("7fffffffffffffffffffffff"), || ubig!(_0x7fffffffffffffffffffffff), None),
    ("_0o37777777777777777777777777777777", Some("7fffffffffffffffffffffff"), || ubig!(_0o37777777777777777777777777777777), None),
    ("_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffffffffffff"), || ubig!(_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), Some((|| ibig!(_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), || ibig!(-_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111)))),
    ("_0x7FFFFFFFFFFFFFFFFFFFFFFF", Some("7fffffffffffffffffffffff"), || ubig!(_0x7FFFFFFFFFFFFFFFFFFFFFFF), None),
    ("_00039614081257132168796771975167", Some("7fffffffffffffffffffffff"), || ubig!(_00039614081257132168796771975167), None),
    ("_0x007fffffffffffffffffffffff", Some("7fffffffffffffffffffffff"), || ubig!(_0x007fffffffffffffffffffffff), Some((|| ibig!(_0x007fffffffffffffffffffffff), || ibig!(-_0x007fffffffffffffffffffffff)))),
    ("_39614081257132168796771975168", Some("800000000000000000000000"), || ubig!(_39614081257132168796771975168), None),
    ("_0x800000000000000000000000", Some("800000000000000000000000"), || ubig!(_0x800000000000000000000000), None),
    ("_0o40000000000000000000000000000000", Some("800000000000000000000000"), || ubig!(_0o40000000000000000000000000000000), Some((|| ibig!(_0o40000000000000000000000000000000), || ibig!(-_0o40000000000000000000000000000000)))),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("800000000000000000000000"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_00039614081257132168796771975168", Some("800000000000000000000000"), || ubig!(_00039614081257132168796771975168), None),
    ("_0x00800000000000000000000000", Some("800000000000000000000000"), || ubig!(_0x00800000000000000000000000), Some((|| ibig!(_0x00800000000000000000000000), || ibig!(-_0x00800000000000000000000000)))),
    ("_39614081257132168796771975169", Some("800000000000000000000001"), || ubig!(_39614081257132168796771975169), None),
    ("_0x800000000000000000000001", Some("800000000000000000000001"), || ubig!(_0x800000000000000000000001), None),
    ("_0o40000000000000000000000000000001", Some("800000000000000000000001"), || ubig!(_0o40000000000000000000000000000001), Some((|| ibig!(_0o40000000000000000000000000000001), || ibig!(-_0o40000000000000000000000000000001)))),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("800000000000000000000001"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_00039614081257132168796771975169", Some("800000000000000000000001"), || ubig!(_00039614081257132168796771975169), None),
    ("_0x00800000000000000000000001", Some("800000000000000000000001"), || ubig!(_0x00800000000000000000000001), Some((|| ibig!(_0x00800000000000000000000001), || ibig!(-_0x00800000000000000000000001)))),
    ("_79228162514264337593543950335", Some("ffffffffffffffffffffffff"), || ubig!(_79228162514264337593543950335), None),
    ("_0xffffffffffffffffffffffff", Some("ffffffffffffffffffffffff"), || ubig!(_0xffffffffffffffffffffffff), None),
    ("_0o77777777777777777777777777777777", Some("ffffffffffffffffffffffff"), || ubig!(_0o77777777777777777777777777777777), Some((|| ibig!(_0o77777777777777777777777777777777), || ibig!(-_0o77777777777777777777777777777777)))),
    ("_0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffff"), || ubig!(_0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0xFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("_00079228162514264337593543950335", Some("ffffffffffffffffffffffff"), || ubig!(_00079228162514264337593543950335), Some((|| ibig!(_00079228162514264337593543950335), || ibig!(-_00079228162514264337593543950335)))),
    ("_0x00ffffffffffffffffffffffff", Some("ffffffffffffffffffffffff"), || ubig!(_0x00ffffffffffffffffffffffff), None),
    ("_79228162514264337593543950336", Some("1000000000000000000000000"), || ubig!(_79228162514264337593543950336), None),
    ("_0x1000000000000000000000000", Some("1000000000000000000000000"), || ubig!(_0x1000000000000000000000000), Some((|| ibig!(_0x1000000000000000000000000), || ibig!(-_0x1000000000000000000000000)))),
    ("_0o100000000000000000000000000000000", Some("1000000000000000000000000"), || ubig!(_0o100000000000000000000000000000000), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("1000000000000000000000000"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_00079228162514264337593543950336", Some("1000000000000000000000000"), || ubig!(_00079228162514264337593543950336), Some((|| ibig!(_00079228162514264337593543950336), || ibig!(-_00079228162514264337593543950336)))),
    ("_0x001000000000000000000000000", Some("1000000000000000000000000"), || ubig!(_0x001000000000000000000000000), None),
    ("_79228162514264337593543950337", Some("1000000000000000000000001"), || ubig!(_79228162514264337593543950337), None),
    ("_0x1000000000000000000000001", Some("1000000000000000000000001"), || ubig!(_0x1000000000000000000000001), Some((|| ibig!(_0x1000000000000000000000001), || ibig!(-_0x1000000000000000000000001)))),
    ("_0o100000000000000000000000000000001", Some("1000000000000000000000001"), || ubig!(_0o100000000000000000000000000000001), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("1000000000000000000000001"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_00079228162514264337593543950337", Some("1000000000000000000000001"), || ubig!(_00079228162514264337593543950337), Some((|| ibig!(_00079228162514264337593543950337), || ibig!(-_00079228162514264337593543950337)))),
    ("_0x001000000000000000000000001", Some("1000000000000000000000001"), || ubig!(_0x001000000000000000000000001), None),
    ("_5192296858534827628530496329220095", Some("ffffffffffffffffffffffffffff"), || ubig!(_5192296858534827628530496329220095), None),
    ("_0xffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffff"), || ubig!(_0xffffffffffffffffffffffffffff), Some((|| ibig!(_0xffffffffffffffffffffffffffff), || ibig!(-_0xffffffffffffffffffffffffffff)))),
    ("_0o17777777777777777777777777777777777777", Some("ffffffffffffffffffffffffffff"), || ubig!(_0o17777777777777777777777777777777777777), None),
    ("_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffffffff"), || ubig!(_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF), Some((|| ibig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF), || ibig!(-_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF)))),
    ("_0005192296858534827628530496329220095", Some("ffffffffffffffffffffffffffff"), || ubig!(_0005192296858534827628530496329220095), None),
    ("_0x00ffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffff"), || ubig!(_0x00ffffffffffffffffffffffffffff), None),
    ("_5192296858534827628530496329220096", Some("10000000000000000000000000000"), || ubig!(_5192296858534827628530496329220096), Some((|| ibig!(_5192296858534827628530496329220096), || ibig!(-_5192296858534827628530496329220096)))),
    ("_0x10000000000000000000000000000", Some("10000000000000000000000000000"), || ubig!(_0x10000000000000000000000000000), None),
    ("_0o20000000000000000000000000000000000000", Some("10000000000000000000000000000"), || ubig!(_0o20000000000000000000000000000000000000), None),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000000000000000"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("_0005192296858534827628530496329220096", Some("10000000000000000000000000000"), || ubig!(_0005192296858534827628530496329220096), None),
    ("_0x0010000000000000000000000000000", Some("10000000000000000000000000000"), || ubig!(_0x0010000000000000000000000000000), None),
    ("_5192296858534827628530496329220097", Some("10000000000000000000000000001"), || ubig!(_5192296858534827628530496329220097), Some((|| ibig!(_5192296858534827628530496329220097), || ibig!(-_5192296858534827628530496329220097)))),
    ("_0x10000000000000000000000000001", Some("10000000000000000000000000001"), || ubig!(_0x10000000000000000000000000001), None),
    ("_0o20000000000000000000000000000000000001", Some("10000000000000000000000000001"), || ubig!(_0o20000000000000000000000000000000000001), None),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000000000000000001"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("_0005192296858534827628530496329220097", Some("10000000000000000000000000001"), || ubig!(_0005192296858534827628530496329220097), None),
    ("_0x0010000000000000000000000000001", Some("10000000000000000000000000001"), || ubig!(_0x0010000000000000000000000000001), None),
    ("_170141183460469231731687303715884105727", Some("7fffffffffffffffffffffffffffffff"), || ubig!(_170141183460469231731687303715884105727), Some((|| ibig!(_170141183460469231731687303715884105727), || ibig!(-_170141183460469231731687303715884105727)))),
    ("_0x7fffffffffffffffffffffffffffffff", Some("7fffffffffffffffffffffffffffffff"), || ubig!(_0x7fffffffffffffffffffffffffffffff), None),
    ("_0o1777777777777777777777777777777777777777777", Some("7fffffffffffffffffffffffffffffff"), || ubig!(_0o1777777777777777777777777777777777777777777), None),
    ("_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffffffffffffffffffff"), || ubig!(_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), Some((|| ibig!(_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), || ibig!(-_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111)))),
    ("_0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("7fffffffffffffffffffffffffffffff"), || ubig!(_0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("_000170141183460469231731687303715884105727", Some("7fffffffffffffffffffffffffffffff"), || ubig!(_000170141183460469231731687303715884105727), None),
    ("_0x007fffffffffffffffffffffffffffffff", Some("7fffffffffffffffffffffffffffffff"), || ubig!(_0x007fffffffffffffffffffffffffffffff), Some((|| ibig!(_0x007fffffffffffffffffffffffffffffff), || ibig!(-_0x007fffffffffffffffffffffffffffffff)))),
    ("_170141183460469231731687303715884105728", Some("80000000000000000000000000000000"), || ubig!(_170141183460469231731687303715884105728), None),
    ("_0x80000000000000000000000000000000", Some("80000000000000000000000000000000"), || ubig!(_0x80000000000000000000000000000000), None),
];
pub static PART7: &[Row] = &[
    ("_0o2000000000000000000000000000000000000000000", Some("80000000000000000000000000000000"), || ubig!(_0o2000000000000000000000000000000000000000000), Some((|| ibig!(_0o2000000000000000000000000000000000000000000), || ibig!(-_0o2000000000000000000000000000000000000000000)))),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("80000000000000000000000000000000"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_000170141183460469231731687303715884105728", Some("80000000000000000000000000000000"), || ubig!(_000170141183460469231731687303715884105728), None),
    ("_0x0080000000000000000000000000000000", Some("80000000000000000000000000000000"), || ubig!(_0x0080000000000000000000000000000000), Some((|| ibig!(_0x0080000000000000000000000000000000), || ibig!(-_0x0080000000000000000000000000000000)))),
    ("_170141183460469231731687303715884105729", Some("80000000000000000000000000000001"), || ubig!(_170141183460469231731687303715884105729), None),
    ("_0x80000000000000000000000000000001", Some("80000000000000000000000000000001"), || ubig!(_0x80000000000000000000000000000001), None),
    ("_0o2000000000000000000000000000000000000000001", Some("80000000000000000000000000000001"), || ubig!(_0o2000000000000000000000000000000000000000001), Some((|| ibig!(_0o2000000000000000000000000000000000000000001), || ibig!(-_0o2000000000000000000000000000000000000000001)))),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("80000000000000000000000000000001"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_000170141183460469231731687303715884105729", Some("80000000000000000000000000000001"), || ubig!(_000170141183460469231731687303715884105729), None),
    ("_0x0080000000000000000000000000000001", Some("80000000000000000000000000000001"), || ubig!(_0x0080000000000000000000000000000001), Some((|| ibig!(_0x0080000000000000000000000000000001), || ibig!(-_0x0080000000000000000000000000000001)))),
    ("_340282366920938463463374607431768211455", Some("ffffffffffffffffffffffffffffffff"), || ubig!(_340282366920938463463374607431768211455), None),
    ("_0xffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffff"), || ubig!(_0xffffffffffffffffffffffffffffffff), None),
    ("_0o3777777777777777777777777777777777777777777", Some("ffffffffffffffffffffffffffffffff"), || ubig!(_0o3777777777777777777777777777777777777777777), Some((|| ibig!(_0o3777777777777777777777777777777777777777777), || ibig!(-_0o3777777777777777777777777777777777777777777)))),
    ("_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffffffffffff"), || ubig!(_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("_000340282366920938463463374607431768211455", Some("ffffffffffffffffffffffffffffffff"), || ubig!(_000340282366920938463463374607431768211455), Some((|| ibig!(_000340282366920938463463374607431768211455), || ibig!(-_000340282366920938463463374607431768211455)))),
    ("_0x00ffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffff"), || ubig!(_0x00ffffffffffffffffffffffffffffffff), None),
    ("_340282366920938463463374607431768211456", Some("100000000000000000000000000000000"), || ubig!(_340282366920938463463374607431768211456), None),
    ("_0x100000000000000000000000000000000", Some("100000000000000000000000000000000"), || ubig!(_0x100000000000000000000000000000000), Some((|| ibig!(_0x100000000000000000000000000000000), || ibig!(-_0x100000000000000000000000000000000)))),
    ("_0o4000000000000000000000000000000000000000000", Some("100000000000000000000000000000000"), || ubig!(_0o4000000000000000000000000000000000000000000), None),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_000340282366920938463463374607431768211456", Some("100000000000000000000000000000000"), || ubig!(_000340282366920938463463374607431768211456), Some((|| ibig!(_000340282366920938463463374607431768211456), || ibig!(-_000340282366920938463463374607431768211456)))),
    ("_0x00100000000000000000000000000000000", Some("100000000000000000000000000000000"), || ubig!(_0x00100000000000000000000000000000000), None),
    ("_340282366920938463463374607431768211457", Some("100000000000000000000000000000001"), || ubig!(_340282366920938463463374607431768211457), None),
    ("_0x100000000000000000000000000000001", Some("100000000000000000000000000000001"), || ubig!(_0x100000000000000000000000000000001), Some((|| ibig!(_0x100000000000000000000000000000001), || ibig!(-_0x100000000000000000000000000000001)))),
    ("_0o4000000000000000000000000000000000000000001", Some("100000000000000000000000000000001"), || ubig!(_0o4000000000000000000000000000000000000000001), None),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000001"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_000340282366920938463463374607431768211457", Some("100000000000000000000000000000001"), || ubig!(_000340282366920938463463374607431768211457), Some((|| ibig!(_000340282366920938463463374607431768211457), || ibig!(-_000340282366920938463463374607431768211457)))),
    ("_0x00100000000000000000000000000000001", Some("100000000000000000000000000000001"), || ubig!(_0x00100000000000000000000000000000001), None),
    ("_680564733841876926926749214863536422911", Some("1ffffffffffffffffffffffffffffffff"), || ubig!(_680564733841876926926749214863536422911), None),
    ("_0x1ffffffffffffffffffffffffffffffff", Some("1ffffffffffffffffffffffffffffffff"), || ubig!(_0x1ffffffffffffffffffffffffffffffff), Some((|| ibig!(_0x1ffffffffffffffffffffffffffffffff), || ibig!(-_0x1ffffffffffffffffffffffffffffffff)))),
    ("_0o7777777777777777777777777777777777777777777", Some("1ffffffffffffffffffffffffffffffff"), || ubig!(_0o7777777777777777777777777777777777777777777), None),
    ("_0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("1ffffffffffffffffffffffffffffffff"), || ubig!(_0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("1ffffffffffffffffffffffffffffffff"), || ubig!(_0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), Some((|| ibig!(_0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), || ibig!(-_0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF)))),
    ("_000680564733841876926926749214863536422911", Some("1ffffffffffffffffffffffffffffffff"), || ubig!(_000680564733841876926926749214863536422911), None),
    ("_0x001ffffffffffffffffffffffffffffffff", Some("1ffffffffffffffffffffffffffffffff"), || ubig!(_0x001ffffffffffffffffffffffffffffffff), None),
    ("_680564733841876926926749214863536422912", Some("200000000000000000000000000000000"), || ubig!(_680564733841876926926749214863536422912), Some((|| ibig!(_680564733841876926926749214863536422912), || ibig!(-_680564733841876926926749214863536422912)))),
    ("_0x200000000000000000000000000000000", Some("200000000000000000000000000000000"), || ubig!(_0x200000000000000000000000000000000), None),
    ("_0o10000000000000000000000000000000000000000000", Some("200000000000000000000000000000000"), || ubig!(_0o10000000000000000000000000000000000000000000), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("200000000000000000000000000000000"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("_000680564733841876926926749214863536422912", Some("200000000000000000000000000000000"), || ubig!(_000680564733841876926926749214863536422912), None),
    ("_0x00200000000000000000000000000000000", Some("200000000000000000000000000000000"), || ubig!(_0x00200000000000000000000000000000000), None),
    ("_680564733841876926926749214863536422913", Some("200000000000000000000000000000001"), || ubig!(_680564733841876926926749214863536422913), Some((|| ibig!(_680564733841876926926749214863536422913), || ibig!(-_680564733841876926926749214863536422913)))),
    ("_0x200000000000000000000000000000001", Some("200000000000000000000000000000001"), || ubig!(_0x200000000000000000000000000000001), None),
    ("_0o10000000000000000000000000000000000000000001", Some("200000000000000000000000000000001"), || ubig!(_0o10000000000000000000000000000000000000000001), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("200000000000000000000000000000001"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("_000680564733841876926926749214863536422913", Some("200000000000000000000000000000001"), || ubig!(_000680564733841876926926749214863536422913), None),
    ("_0x00200000000000000000000000000000001", Some("200000000000000000000000000000001"), || ubig!(_0x00200000000000000000000000000000001), None),
    ("_1461501637330902918203684832716283019655932542975", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_1461501637330902918203684832716283019655932542975), Some((|| ibig!(_1461501637330902918203684832716283019655932542975), || ibig!(-_1461501637330902918203684832716283019655932542975)))),
    ("_0xffffffffffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xffffffffffffffffffffffffffffffffffffffff), None),
    ("_0o177777777777777777777777777777777777777777777777777777", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0o177777777777777777777777777777777777777777777777777777), None),
    ("_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), Some((|| ibig!(_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), || ibig!(-_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111)))),
    ("_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("_0001461501637330902918203684832716283019655932542975", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0001461501637330902918203684832716283019655932542975), None),
    ("_0x00ffffffffffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0x00ffffffffffffffffffffffffffffffffffffffff), Some((|| ibig!(_0x00ffffffffffffffffffffffffffffffffffffffff), || ibig!(-_0x00ffffffffffffffffffffffffffffffffffffffff)))),
    ("_1461501637330902918203684832716283019655932542976", Some("10000000000000000000000000000000000000000"), || ubig!(_1461501637330902918203684832716283019655932542976), None),
    ("_0x10000000000000000000000000000000000000000", Some("10000000000000000000000000000000000000000"), || ubig!(_0x10000000000000000000000000000000000000000), None),
    ("_0o200000000000000000000000000000000000000000000000000000", Some("10000000000000000000000000000000000000000"), || ubig!(_0o200000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0o200000000000000000000000000000000000000000000000000000), || ibig!(-_0o200000000000000000000000000000000000000000000000000000)))),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000000000000000000000000000"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0001461501637330902918203684832716283019655932542976", Some("10000000000000000000000000000000000000000"), || ubig!(_0001461501637330902918203684832716283019655932542976), None),
    ("_0x0010000000000000000000000000000000000000000", Some("10000000000000000000000000000000000000000"), || ubig!(_0x0010000000000000000000000000000000000000000), Some((|| ibig!(_0x0010000000000000000000000000000000000000000), || ibig!(-_0x0010000000000000000000000000000000000000000)))),
    ("_1461501637330902918203684832716283019655932542977", Some("10000000000000000000000000000000000000001"), || ubig!(_1461501637330902918203684832716283019655932542977), None),
    ("_0x10000000000000000000000000000000000000001", Some("10000000000000000000000000000000000000001"), || ubig!(_0x10000000000000000000000000000000000000001), None),
    ("_0o200000000000000000000000000000000000000000000000000001", Some("10000000000000000000000000000000000000001"), || ubig!(_0o200000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0o200000000000000000000000000000000000000000000000000001), || ibig!(-_0o200000000000000000000000000000000000000000000000000001)))),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000000000000000000000000000001"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0001461501637330902918203684832716283019655932542977", Some("10000000000000000000000000000000000000001"), || ubig!(_0001461501637330902918203684832716283019655932542977), None),
    ("_0x0010000000000000000000000000000000000000001", Some("10000000000000000000000000000000000000001"), || ubig!(_0x0010000000000000000000000000000000000000001), Some((|| ibig!(_0x0010000000000000000000000000000000000000001), || ibig!(-_0x0010000000000000000000000000000000000000001)))),
    ("_6277101735386680763835789423207666416102355444464034512895", Some("ffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_6277101735386680763835789423207666416102355444464034512895), None),
    ("_0xffffffffffffffffffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xffffffffffffffffffffffffffffffffffffffffffffffff), None),
    ("_0o7777777777777777777777777777777777777777777777777777777777777777", Some("ffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0o7777777777777777777777777777777777777777777777777777777777777777), Some((|| ibig!(_0o7777777777777777777777777777777777777777777777777777777777777777), || ibig!(-_0o7777777777777777777777777777777777777777777777777777777777777777)))),
    ("_0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("_0006277101735386680763835789423207666416102355444464034512895", Some("ffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0006277101735386680763835789423207666416102355444464034512895), Some((|| ibig!(_0006277101735386680763835789423207666416102355444464034512895), || ibig!(-_0006277101735386680763835789423207666416102355444464034512895)))),
    ("_0x00ffffffffffffffffffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0x00ffffffffffffffffffffffffffffffffffffffffffffffff), None),
    ("_6277101735386680763835789423207666416102355444464034512896", Some("1000000000000000000000000000000000000000000000000"), || ubig!(_6277101735386680763835789423207666416102355444464034512896), None),
    ("_0x1000000000000000000000000000000000000000000000000", Some("1000000000000000000000000000000000000000000000000"), || ubig!(_0x1000000000000000000000000000000000000000000000000), Some((|| ibig!(_0x1000000000000000000000000000000000000000000000000), || ibig!(-_0x1000000000000000000000000000000000000000000000000)))),
    ("_0o10000000000000000000000000000000000000000000000000000000000000000", Some("1000000000000000000000000000000000000000000000000"), || ubig!(_0o10000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("1000000000000000000000000000000000000000000000000"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0006277101735386680763835789423207666416102355444464034512896", Some("1000000000000000000000000000000000000000000000000"), || ubig!(_0006277101735386680763835789423207666416102355444464034512896), Some((|| ibig!(_0006277101735386680763835789423207666416102355444464034512896), || ibig!(-_0006277101735386680763835789423207666416102355444464034512896)))),
    ("_0x001000000000000000000000000000000000000000000000000", Some("1000000000000000000000000000000000000000000000000"), || ubig!(_0x001000000000000000000000000000000000000000000000000), None),
    ("_6277101735386680763835789423207666416102355444464034512897", Some("1000000000000000000000000000000000000000000000001"), || ubig!(_6277101735386680763835789423207666416102355444464034512897), None),
    ("_0x1000000000000000000000000000000000000000000000001", Some("1000000000000000000000000000000000000000000000001"), || ubig!(_0x1000000000000000000000000000000000000000000000001), Some((|| ibig!(_0x1000000000000000000000000000000000000000000000001), || ibig!(-_0x1000000000000000000000000000000000000000000000001)))),
    ("_0o10000000000000000000000000000000000000000000000000000000000000001", Some("1000000000000000000000000000000000000000000000001"), || ubig!(_0o10000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("1000000000000000000000000000000000000000000000001"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0006277101735386680763835789423207666416102355444464034512897", Some("1000000000000000000000000000000000000000000000001"), || ubig!(_0006277101735386680763835789423207666416102355444464034512897), Some((|| ibig!(_0006277101735386680763835789423207666416102355444464034512897), || ibig!(-_0006277101735386680763835789423207666416102355444464034512897)))),
    ("_0x001000000000000000000000000000000000000000000000001", Some("1000000000000000000000000000000000000000000000001"), || ubig!(_0x001000000000000000000000000000000000000000000000001), None),
    ("_57896044618658097711785492504343953926634992332820282019728792003956564819967", Some("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_57896044618658097711785492504343953926634992332820282019728792003956564819967), None),
    ("_0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", Some("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), Some((|| ibig!(_0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), || ibig!(-_0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)))),
    ("_0o7777777777777777777777777777777777777777777777777777777777777777777777777777777777777", Some("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0o7777777777777777777777777777777777777777777777777777777777777777777777777777777777777), None),
    ("_0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), Some((|| ibig!(_0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), || ibig!(-_0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF)))),
    ("_00057896044618658097711785492504343953926634992332820282019728792003956564819967", Some("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_00057896044618658097711785492504343953926634992332820282019728792003956564819967), None),
    ("_0x007fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", Some("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0x007fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), None),
    ("_57896044618658097711785492504343953926634992332820282019728792003956564819968", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_57896044618658097711785492504343953926634992332820282019728792003956564819968), Some((|| ibig!(_57896044618658097711785492504343953926634992332820282019728792003956564819968), || ibig!(-_57896044618658097711785492504343953926634992332820282019728792003956564819968)))),
    ("_0x8000000000000000000000000000000000000000000000000000000000000000", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0x8000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0o10000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0o10000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("_00057896044618658097711785492504343953926634992332820282019728792003956564819968", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_00057896044618658097711785492504343953926634992332820282019728792003956564819968), None),
    ("_0x008000000000000000000000000000000000000000000000000000000000000000", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0x008000000000000000000000000000000000000000000000000000000000000000), None),
    ("_57896044618658097711785492504343953926634992332820282019728792003956564819969", Some("8000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_57896044618658097711785492504343953926634992332820282019728792003956564819969), Some((|| ibig!(_57896044618658097711785492504343953926634992332820282019728792003956564819969), || ibig!(-_57896044618658097711785492504343953926634992332820282019728792003956564819969)))),
    ("_0x8000000000000000000000000000000000000000000000000000000000000001", Some("8000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0x8000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0o10000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("8000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0o10000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("8000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("_00057896044618658097711785492504343953926634992332820282019728792003956564819969", Some("8000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_00057896044618658097711785492504343953926634992332820282019728792003956564819969), None),
    ("_0x008000000000000000000000000000000000000000000000000000000000000001", Some("8000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0x008000000000000000000000000000000000000000000000000000000000000001), None),
    ("_115792089237316195423570985008687907853269984665640564039457584007913129639935", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_115792089237316195423570985008687907853269984665640564039457584007913129639935), Some((|| ibig!(_115792089237316195423570985008687907853269984665640564039457584007913129639935), || ibig!(-_115792089237316195423570985008687907853269984665640564039457584007913129639935)))),
    ("_0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), None),
    ("_0o17777777777777777777777777777777777777777777777777777777777777777777777777777777777777", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0o17777777777777777777777777777777777777777777777777777777777777777777777777777777777777), None),
    ("_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), Some((|| ibig!(_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), || ibig!(-_0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111)))),
    ("_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("_000115792089237316195423570985008687907853269984665640564039457584007913129639935", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_000115792089237316195423570985008687907853269984665640564039457584007913129639935), None),
    ("_0x00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0x00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), Some((|| ibig!(_0x00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), || ibig!(-_0x00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)))),
    ("_115792089237316195423570985008687907853269984665640564039457584007913129639936", Some("10000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_115792089237316195423570985008687907853269984665640564039457584007913129639936), None),
    ("_0x10000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0x10000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0o20000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0o20000000000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0o20000000000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0o20000000000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_000115792089237316195423570985008687907853269984665640564039457584007913129639936", Some("10000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_000115792089237316195423570985008687907853269984665640564039457584007913129639936), None),
    ("_0x0010000000000000000000000000000000000000000000000000000000000000000", Some("10000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0x0010000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0x0010000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0x0010000000000000000000000000000000000000000000000000000000000000000)))),
    ("_115792089237316195423570985008687907853269984665640564039457584007913129639937", Some("10000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_115792089237316195423570985008687907853269984665640564039457584007913129639937), None),
    ("_0x10000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0x10000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0o20000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0o20000000000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0o20000000000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0o20000000000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0b10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_000115792089237316195423570985008687907853269984665640564039457584007913129639937", Some("10000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_000115792089237316195423570985008687907853269984665640564039457584007913129639937), None),
    ("_0x0010000000000000000000000000000000000000000000000000000000000000001", Some("10000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0x0010000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0x0010000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0x0010000000000000000000000000000000000000000000000000000000000000001)))),
    ("_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936575", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936575), None),
    ("_0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), None),
    ("_0o37777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0o37777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777), Some((|| ibig!(_0o37777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777), || ibig!(-_0o37777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777)))),
    ("_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), None),
    ("_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936575", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936575), Some((|| ibig!(_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936575), || ibig!(-_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936575)))),
    ("_0x00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", Some("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0x00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), None),
    ("_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576), None),
    ("_0x100000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0x100000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0x100000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0x100000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("_0o40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0o40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576), Some((|| ibig!(_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576), || ibig!(-_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576)))),
    ("_0x00100000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0x00100000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577), None),
    ("_0x100000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0x100000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0x100000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0x100000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("_0o40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0o40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577), Some((|| ibig!(_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577), || ibig!(-_0002135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577)))),
    ("_0x00100000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0x00100000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589375", Some("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589375), None),
    ("_0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", Some("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), Some((|| ibig!(_0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), || ibig!(-_0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)))),
    ("_0o37777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777", Some("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0o37777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777), None),
    ("_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", Some("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111), None),
    ("_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Some("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), Some((|| ibig!(_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF), || ibig!(-_0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF)))),
    ("_0003273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589375", Some("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0003273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589375), None),
    ("_0x00fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", Some("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_0x00fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), None),
];
pub static PART8: &[Row] = &[
    ("_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589376", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589376), Some((|| ibig!(_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589376), || ibig!(-_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589376)))),
    ("_0x100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0x100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0o40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0o40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("_0003273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589376", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0003273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589376), None),
    ("_0x00100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_0x00100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), None),
    ("_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589377", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589377), Some((|| ibig!(_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589377), || ibig!(-_3273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589377)))),
    ("_0x100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0x100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0o40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0o40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), Some((|| ibig!(_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), || ibig!(-_0b100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001)))),
    ("_0003273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589377", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0003273390607896141870013189696827599152216642046043064789483291368096133796404674554883270092325904157150886684127560071009217256545885393053328527589377), None),
    ("_0x00100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_0x00100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001), None),
    ("_30674428207958060900017656505349311421417148368735108388181864611840", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_30674428207958060900017656505349311421417148368735108388181864611840), Some((|| ibig!(_30674428207958060900017656505349311421417148368735108388181864611840), || ibig!(-_30674428207958060900017656505349311421417148368735108388181864611840)))),
    ("_0x123456789abcdef0fedcba98765432100000000000000000000000000", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_0x123456789abcdef0fedcba98765432100000000000000000000000000), None),
    ("_0o443212636115274675703766713523035452062040000000000000000000000000000000000", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_0o443212636115274675703766713523035452062040000000000000000000000000000000000), None),
    ("_0b100100011010001010110011110001001101010111100110111101111000011111110110111001011101010011000011101100101010000110010000100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_0b100100011010001010110011110001001101010111100110111101111000011111110110111001011101010011000011101100101010000110010000100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), Some((|| ibig!(_0b100100011010001010110011110001001101010111100110111101111000011111110110111001011101010011000011101100101010000110010000100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000), || ibig!(-_0b100100011010001010110011110001001101010111100110111101111000011111110110111001011101010011000011101100101010000110010000100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000)))),
    ("_0x123456789ABCDEF0FEDCBA98765432100000000000000000000000000", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_0x123456789ABCDEF0FEDCBA98765432100000000000000000000000000), None),
    ("_00030674428207958060900017656505349311421417148368735108388181864611840", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_00030674428207958060900017656505349311421417148368735108388181864611840), None),
    ("_0x00123456789abcdef0fedcba98765432100000000000000000000000000", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_0x00123456789abcdef0fedcba98765432100000000000000000000000000), Some((|| ibig!(_0x00123456789abcdef0fedcba98765432100000000000000000000000000), || ibig!(-_0x00123456789abcdef0fedcba98765432100000000000000000000000000)))),
    ("_a", None, || ubig!(_a), Some((|| ibig!(_a), || ibig!(-_a)))),
    ("a", None, || ubig!(a), Some((|| ibig!(a), || ibig!(-a)))),
    ("_f", None, || ubig!(_f), Some((|| ibig!(_f), || ibig!(-_f)))),
    ("f", None, || ubig!(f), Some((|| ibig!(f), || ibig!(-f)))),
    ("_x", None, || ubig!(_x), Some((|| ibig!(_x), || ibig!(-_x)))),
    ("x", None, || ubig!(x), Some((|| ibig!(x), || ibig!(-x)))),
    ("_b", None, || ubig!(_b), Some((|| ibig!(_b), || ibig!(-_b)))),
    ("b", None, || ubig!(b), Some((|| ibig!(b), || ibig!(-b)))),
    ("_o", None, || ubig!(_o), Some((|| ibig!(_o), || ibig!(-_o)))),
    ("o", None, || ubig!(o), Some((|| ibig!(o), || ibig!(-o)))),
    ("_00", Some("0"), || ubig!(_00), Some((|| ibig!(_00), || ibig!(-_00)))),
    ("_01", Some("1"), || ubig!(_01), Some((|| ibig!(_01), || ibig!(-_01)))),
    ("_07", Some("7"), || ubig!(_07), Some((|| ibig!(_07), || ibig!(-_07)))),
    ("_09", Some("9"), || ubig!(_09), Some((|| ibig!(_09), || ibig!(-_09)))),
    ("_0a", None, || ubig!(_0a), Some((|| ibig!(_0a), || ibig!(-_0a)))),
    ("_0f", None, || ubig!(_0f), Some((|| ibig!(_0f), || ibig!(-_0f)))),
    ("_0x", None, || ubig!(_0x), Some((|| ibig!(_0x), || ibig!(-_0x)))),
    ("_0b", None, || ubig!(_0b), Some((|| ibig!(_0b), || ibig!(-_0b)))),
    ("_0o", None, || ubig!(_0o), Some((|| ibig!(_0o), || ibig!(-_0o)))),
    ("_10", Some("a"), || ubig!(_10), Some((|| ibig!(_10), || ibig!(-_10)))),
    ("_11", Some("b"), || ubig!(_11), Some((|| ibig!(_11), || ibig!(-_11)))),
    ("_17", Some("11"), || ubig!(_17), Some((|| ibig!(_17), || ibig!(-_17)))),
    ("_19", Some("13"), || ubig!(_19), Some((|| ibig!(_19), || ibig!(-_19)))),
    ("_1a", None, || ubig!(_1a), Some((|| ibig!(_1a), || ibig!(-_1a)))),
    ("_1f", None, || ubig!(_1f), Some((|| ibig!(_1f), || ibig!(-_1f)))),
    ("_1x", None, || ubig!(_1x), Some((|| ibig!(_1x), || ibig!(-_1x)))),
    ("_1b", None, || ubig!(_1b), Some((|| ibig!(_1b), || ibig!(-_1b)))),
    ("_1o", None, || ubig!(_1o), Some((|| ibig!(_1o), || ibig!(-_1o)))),
    ("_70", Some("46"), || ubig!(_70), Some((|| ibig!(_70), || ibig!(-_70)))),
    ("_71", Some("47"), || ubig!(_71), Some((|| ibig!(_71), || ibig!(-_71)))),
    ("_77", Some("4d"), || ubig!(_77), Some((|| ibig!(_77), || ibig!(-_77)))),
    ("_79", Some("4f"), || ubig!(_79), Some((|| ibig!(_79), || ibig!(-_79)))),
    ("_7a", None, || ubig!(_7a), Some((|| ibig!(_7a), || ibig!(-_7a)))),
    ("_7f", None, || ubig!(_7f), Some((|| ibig!(_7f), || ibig!(-_7f)))),
    ("_7x", None, || ubig!(_7x), Some((|| ibig!(_7x), || ibig!(-_7x)))),
    ("_7b", None, || ubig!(_7b), Some((|| ibig!(_7b), || ibig!(-_7b)))),
    ("_7o", None, || ubig!(_7o), Some((|| ibig!(_7o), || ibig!(-_7o)))),
    ("_90", Some("5a"), || ubig!(_90), Some((|| ibig!(_90), || ibig!(-_90)))),
    ("_91", Some("5b"), || ubig!(_91), Some((|| ibig!(_91), || ibig!(-_91)))),
    ("_97", Some("61"), || ubig!(_97), Some((|| ibig!(_97), || ibig!(-_97)))),
    ("_99", Some("63"), || ubig!(_99), Some((|| ibig!(_99), || ibig!(-_99)))),
    ("_9a", None, || ubig!(_9a), Some((|| ibig!(_9a), || ibig!(-_9a)))),
    ("_9f", None, || ubig!(_9f), Some((|| ibig!(_9f), || ibig!(-_9f)))),
    ("_9x", None, || ubig!(_9x), Some((|| ibig!(_9x), || ibig!(-_9x)))),
    ("_9b", None, || ubig!(_9b), Some((|| ibig!(_9b), || ibig!(-_9b)))),
    ("_9o", None, || ubig!(_9o), Some((|| ibig!(_9o), || ibig!(-_9o)))),
    ("_a0", None, || ubig!(_a0), Some((|| ibig!(_a0), || ibig!(-_a0)))),
    ("a0", None, || ubig!(a0), Some((|| ibig!(a0), || ibig!(-a0)))),
    ("_a1", None, || ubig!(_a1), Some((|| ibig!(_a1), || ibig!(-_a1)))),
    ("a1", None, || ubig!(a1), Some((|| ibig!(a1), || ibig!(-a1)))),
    ("_a7", None, || ubig!(_a7), Some((|| ibig!(_a7), || ibig!(-_a7)))),
    ("a7", None, || ubig!(a7), Some((|| ibig!(a7), || ibig!(-a7)))),
    ("_a9", None, || ubig!(_a9), Some((|| ibig!(_a9), || ibig!(-_a9)))),
    ("a9", None, || ubig!(a9), Some((|| ibig!(a9), || ibig!(-a9)))),
    ("_aa", None, || ubig!(_aa), Some((|| ibig!(_aa), || ibig!(-_aa)))),
    ("aa", None, || ubig!(aa), Some((|| ibig!(aa), || ibig!(-aa)))),
    ("_af", None, || ubig!(_af), Some((|| ibig!(_af), || ibig!(-_af)))),
    ("af", None, || ubig!(af), Some((|| ibig!(af), || ibig!(-af)))),
    ("_ax", None, || ubig!(_ax), Some((|| ibig!(_ax), || ibig!(-_ax)))),
    ("ax", None, || ubig!(ax), Some((|| ibig!(ax), || ibig!(-ax)))),
    ("_ab", None, || ubig!(_ab), Some((|| ibig!(_ab), || ibig!(-_ab)))),
    ("ab", None, || ubig!(ab), Some((|| ibig!(ab), || ibig!(-ab)))),
    ("_ao", None, || ubig!(_ao), Some((|| ibig!(_ao), || ibig!(-_ao)))),
    ("ao", None, || ubig!(ao), Some((|| ibig!(ao), || ibig!(-ao)))),
    ("_f0", None, || ubig!(_f0), Some((|| ibig!(_f0), || ibig!(-_f0)))),
    ("f0", None, || ubig!(f0), Some((|| ibig!(f0), || ibig!(-f0)))),
    ("_f1", None, || ubig!(_f1), Some((|| ibig!(_f1), || ibig!(-_f1)))),
    ("f1", None, || ubig!(f1), Some((|| ibig!(f1), || ibig!(-f1)))),
    ("_f7", None, || ubig!(_f7), Some((|| ibig!(_f7), || ibig!(-_f7)))),
    ("f7", None, || ubig!(f7), Some((|| ibig!(f7), || ibig!(-f7)))),
    ("_f9", None, || ubig!(_f9), Some((|| ibig!(_f9), || ibig!(-_f9)))),
    ("f9", None, || ubig!(f9), Some((|| ibig!(f9), || ibig!(-f9)))),
    ("_fa", None, || ubig!(_fa), Some((|| ibig!(_fa), || ibig!(-_fa)))),
    ("fa", None, || ubig!(fa), Some((|| ibig!(fa), || ibig!(-fa)))),
    ("_ff", None, || ubig!(_ff), Some((|| ibig!(_ff), || ibig!(-_ff)))),
    ("ff", None, || ubig!(ff), Some((|| ibig!(ff), || ibig!(-ff)))),
    ("_fx", None, || ubig!(_fx), Some((|| ibig!(_fx), || ibig!(-_fx)))),
    ("fx", None, || ubig!(fx), Some((|| ibig!(fx), || ibig!(-fx)))),
    ("_fb", None, || ubig!(_fb), Some((|| ibig!(_fb), || ibig!(-_fb)))),
    ("fb", None, || ubig!(fb), Some((|| ibig!(fb), || ibig!(-fb)))),
    ("_fo", None, || ubig!(_fo), Some((|| ibig!(_fo), || ibig!(-_fo)))),
    ("fo", None, || ubig!(fo), Some((|| ibig!(fo), || ibig!(-fo)))),
    ("_x0", None, || ubig!(_x0), Some((|| ibig!(_x0), || ibig!(-_x0)))),
    ("x0", None, || ubig!(x0), Some((|| ibig!(x0), || ibig!(-x0)))),
    ("_x1", None, || ubig!(_x1), Some((|| ibig!(_x1), || ibig!(-_x1)))),
    ("x1", None, || ubig!(x1), Some((|| ibig!(x1), || ibig!(-x1)))),
    ("_x7", None, || ubig!(_x7), Some((|| ibig!(_x7), || ibig!(-_x7)))),
    ("x7", None, || ubig!(x7), Some((|| ibig!(x7), || ibig!(-x7)))),
    ("_x9", None, || ubig!(_x9), Some((|| ibig!(_x9), || ibig!(-_x9)))),
    ("x9", None, || ubig!(x9), Some((|| ibig!(x9), || ibig!(-x9)))),
    ("_xa", None, || ubig!(_xa), Some((|| ibig!(_xa), || ibig!(-_xa)))),
    ("xa", None, || ubig!(xa), Some((|| ibig!(xa), || ibig!(-xa)))),
    ("_xf", None, || ubig!(_xf), Some((|| ibig!(_xf), || ibig!(-_xf)))),
    ("xf", None, || ubig!(xf), Some((|| ibig!(xf), || ibig!(-xf)))),
    ("_xx", None, || ubig!(_xx), Some((|| ibig!(_xx), || ibig!(-_xx)))),
    ("xx", None, || ubig!(xx), Some((|| ibig!(xx), || ibig!(-xx)))),
    ("_xb", None, || ubig!(_xb), Some((|| ibig!(_xb), || ibig!(-_xb)))),
    ("xb", None, || ubig!(xb), Some((|| ibig!(xb), || ibig!(-xb)))),
    ("_xo", None, || ubig!(_xo), Some((|| ibig!(_xo), || ibig!(-_xo)))),
    ("xo", None, || ubig!(xo), Some((|| ibig!(xo), || ibig!(-xo)))),
    ("_b0", None, || ubig!(_b0), Some((|| ibig!(_b0), || ibig!(-_b0)))),
    ("b0", None, || ubig!(b0), Some((|| ibig!(b0), || ibig!(-b0)))),
    ("_b1", None, || ubig!(_b1), Some((|| ibig!(_b1), || ibig!(-_b1)))),
    ("b1", None, || ubig!(b1), Some((|| ibig!(b1), || ibig!(-b1)))),
    ("_b7", None, || ubig!(_b7), Some((|| ibig!(_b7), || ibig!(-_b7)))),
    ("b7", None, || ubig!(b7), Some((|| ibig!(b7), || ibig!(-b7)))),
    ("_b9", None, || ubig!(_b9), Some((|| ibig!(_b9), || ibig!(-_b9)))),
    ("b9", None, || ubig!(b9), Some((|| ibig!(b9), || ibig!(-b9)))),
    ("_ba", None, || ubig!(_ba), Some((|| ibig!(_ba), || ibig!(-_ba)))),
    ("ba", None, || ubig!(ba), Some((|| ibig!(ba), || ibig!(-ba)))),
    ("_bf", None, || ubig!(_bf), Some((|| ibig!(_bf), || ibig!(-_bf)))),
    ("bf", None, || ubig!(bf), Some((|| ibig!(bf), || ibig!(-bf)))),
    ("_bx", None, || ubig!(_bx), Some((|| ibig!(_bx), || ibig!(-_bx)))),
    ("bx", None, || ubig!(bx), Some((|| ibig!(bx), || ibig!(-bx)))),
    ("_bb", None, || ubig!(_bb), Some((|| ibig!(_bb), || ibig!(-_bb)))),
    ("bb", None, || ubig!(bb), Some((|| ibig!(bb), || ibig!(-bb)))),
    ("_bo", None, || ubig!(_bo), Some((|| ibig!(_bo), || ibig!(-_bo)))),
    ("bo", None, || ubig!(bo), Some((|| ibig!(bo), || ibig!(-bo)))),
    ("_o0", None, || ubig!(_o0), Some((|| ibig!(_o0), || ibig!(-_o0)))),
    ("o0", None, || ubig!(o0), Some((|| ibig!(o0), || ibig!(-o0)))),
    ("_o1", None, || ubig!(_o1), Some((|| ibig!(_o1), || ibig!(-_o1)))),
    ("o1", None, || ubig!(o1), Some((|| ibig!(o1), || ibig!(-o1)))),
    ("_o7", None, || ubig!(_o7), Some((|| ibig!(_o7), || ibig!(-_o7)))),
    ("o7", None, || ubig!(o7), Some((|| ibig!(o7), || ibig!(-o7)))),
    ("_o9", None, || ubig!(_o9), Some((|| ibig!(_o9), || ibig!(-_o9)))),
    ("o9", None, || ubig!(o9), Some((|| ibig!(o9), || ibig!(-o9)))),
    ("_oa", None, || ubig!(_oa), Some((|| ibig!(_oa), || ibig!(-_oa)))),
    ("oa", None, || ubig!(oa), Some((|| ibig!(oa), || ibig!(-oa)))),
    ("_of", None, || ubig!(_of), Some((|| ibig!(_of), || ibig!(-_of)))),
    ("of", None, || ubig!(of), Some((|| ibig!(of), || ibig!(-of)))),
    ("_ox", None, || ubig!(_ox), Some((|| ibig!(_ox), || ibig!(-_ox)))),
];
pub static PART9: &[Row] = &[
    ("ox", None, || ubig!(ox), Some((|| ibig!(ox), || ibig!(-ox)))),
    ("_ob", None, || ubig!(_ob), Some((|| ibig!(_ob), || ibig!(-_ob)))),
    ("ob", None, || ubig!(ob), Some((|| ibig!(ob), || ibig!(-ob)))),
    ("_oo", None, || ubig!(_oo), Some((|| ibig!(_oo), || ibig!(-_oo)))),
    ("oo", None, || ubig!(oo), Some((|| ibig!(oo), || ibig!(-oo)))),
    ("_000", Some("0"), || ubig!(_000), None),
    ("_001", Some("1"), || ubig!(_001), Some((|| ibig!(_001), || ibig!(-_001)))),
    ("_00a", None, || ubig!(_00a), None),
    ("_00x", None, || ubig!(_00x), None),
    ("_00b", None, || ubig!(_00b), Some((|| ibig!(_00b), || ibig!(-_00b)))),
    ("_010", Some("a"), || ubig!(_010), None),
    ("_011", Some("b"), || ubig!(_011), None),
    ("_01a", None, || ubig!(_01a), Some((|| ibig!(_01a), || ibig!(-_01a)))),
    ("_01x", None, || ubig!(_01x), None),
    ("_01b", None, || ubig!(_01b), None),
    ("_0a0", None, || ubig!(_0a0), Some((|| ibig!(_0a0), || ibig!(-_0a0)))),
    ("_0a1", None, || ubig!(_0a1), None),
    ("_0aa", None, || ubig!(_0aa), None),
    ("_0ax", None, || ubig!(_0ax), Some((|| ibig!(_0ax), || ibig!(-_0ax)))),
    ("_0ab", None, || ubig!(_0ab), None),
    ("_0xa", Some("a"), || ubig!(_0xa), None),
    ("_0xx", None, || ubig!(_0xx), Some((|| ibig!(_0xx), || ibig!(-_0xx)))),
    ("_0xb", Some("b"), || ubig!(_0xb), None),
    ("_0ba", None, || ubig!(_0ba), None),
    ("_0bx", None, || ubig!(_0bx), Some((|| ibig!(_0bx), || ibig!(-_0bx)))),
    ("_0bb", None, || ubig!(_0bb), None),
    ("_100", Some("64"), || ubig!(_100), None),
    ("_101", Some("65"), || ubig!(_101), Some((|| ibig!(_101), || ibig!(-_101)))),
    ("_10a", None, || ubig!(_10a), None),
    ("_10x", None, || ubig!(_10x), None),
    ("_10b", None, || ubig!(_10b), Some((|| ibig!(_10b), || ibig!(-_10b)))),
    ("_110", Some("6e"), || ubig!(_110), None),
    ("_111", Some("6f"), || ubig!(_111), None),
    ("_11a", None, || ubig!(_11a), Some((|| ibig!(_11a), || ibig!(-_11a)))),
    ("_11x", None, || ubig!(_11x), None),
    ("_11b", None, || ubig!(_11b), None),
    ("_1a0", None, || ubig!(_1a0), Some((|| ibig!(_1a0), || ibig!(-_1a0)))),
    ("_1a1", None, || ubig!(_1a1), None),
    ("_1aa", None, || ubig!(_1aa), None),
    ("_1ax", None, || ubig!(_1ax), Some((|| ibig!(_1ax), || ibig!(-_1ax)))),
    ("_1ab", None, || ubig!(_1ab), None),
    ("_1x0", None, || ubig!(_1x0), None),
    ("_1x1", None, || ubig!(_1x1), Some((|| ibig!(_1x1), || ibig!(-_1x1)))),
    ("_1xa", None, || ubig!(_1xa), None),
    ("_1xx", None, || ubig!(_1xx), None),
    ("_1xb", None, || ubig!(_1xb), Some((|| ibig!(_1xb), || ibig!(-_1xb)))),
    ("_1b0", None, || ubig!(_1b0), None),
    ("_1b1", None, || ubig!(_1b1), None),
    ("_1ba", None, || ubig!(_1ba), Some((|| ibig!(_1ba), || ibig!(-_1ba)))),
    ("_1bx", None, || ubig!(_1bx), None),
    ("_1bb", None, || ubig!(_1bb), None),
    ("_a00", None, || ubig!(_a00), Some((|| ibig!(_a00), || ibig!(-_a00)))),
    ("a00", None, || ubig!(a00), Some((|| ibig!(a00), || ibig!(-a00)))),
    ("_a01", None, || ubig!(_a01), None),
    ("a01", None, || ubig!(a01), Some((|| ibig!(a01), || ibig!(-a01)))),
    ("_a0a", None, || ubig!(_a0a), None),
    ("a0a", None, || ubig!(a0a), Some((|| ibig!(a0a), || ibig!(-a0a)))),
    ("_a0x", None, || ubig!(_a0x), Some((|| ibig!(_a0x), || ibig!(-_a0x)))),
    ("a0x", None, || ubig!(a0x), Some((|| ibig!(a0x), || ibig!(-a0x)))),
    ("_a0b", None, || ubig!(_a0b), None),
    ("a0b", None, || ubig!(a0b), Some((|| ibig!(a0b), || ibig!(-a0b)))),
    ("_a10", None, || ubig!(_a10), None),
    ("a10", None, || ubig!(a10), Some((|| ibig!(a10), || ibig!(-a10)))),
    ("_a11", None, || ubig!(_a11), Some((|| ibig!(_a11), || ibig!(-_a11)))),
    ("a11", None, || ubig!(a11), Some((|| ibig!(a11), || ibig!(-a11)))),
    ("_a1a", None, || ubig!(_a1a), None),
    ("a1a", None, || ubig!(a1a), Some((|| ibig!(a1a), || ibig!(-a1a)))),
    ("_a1x", None, || ubig!(_a1x), None),
    ("a1x", None, || ubig!(a1x), Some((|| ibig!(a1x), || ibig!(-a1x)))),
    ("_a1b", None, || ubig!(_a1b), Some((|| ibig!(_a1b), || ibig!(-_a1b)))),
    ("a1b", None, || ubig!(a1b), Some((|| ibig!(a1b), || ibig!(-a1b)))),
    ("_aa0", None, || ubig!(_aa0), None),
    ("aa0", None, || ubig!(aa0), Some((|| ibig!(aa0), || ibig!(-aa0)))),
    ("_aa1", None, || ubig!(_aa1), None),
    ("aa1", None, || ubig!(aa1), Some((|| ibig!(aa1), || ibig!(-aa1)))),
    ("_aaa", None, || ubig!(_aaa), Some((|| ibig!(_aaa), || ibig!(-_aaa)))),
    ("aaa", None, || ubig!(aaa), Some((|| ibig!(aaa), || ibig!(-aaa)))),
    ("_aax", None, || ubig!(_aax), None),
    ("aax", None, || ubig!(aax), Some((|| ibig!(aax), || ibig!(-aax)))),
    ("_aab", None, || ubig!(_aab), None),
    ("aab", None, || ubig!(aab), Some((|| ibig!(aab), || ibig!(-aab)))),
    ("_ax0", None, || ubig!(_ax0), Some((|| ibig!(_ax0), || ibig!(-_ax0)))),
    ("ax0", None, || ubig!(ax0), Some((|| ibig!(ax0), || ibig!(-ax0)))),
    ("_ax1", None, || ubig!(_ax1), None),
    ("ax1", None, || ubig!(ax1), Some((|| ibig!(ax1), || ibig!(-ax1)))),
    ("_axa", None, || ubig!(_axa), None),
    ("axa", None, || ubig!(axa), Some((|| ibig!(axa), || ibig!(-axa)))),
    ("_axx", None, || ubig!(_axx), Some((|| ibig!(_axx), || ibig!(-_axx)))),
    ("axx", None, || ubig!(axx), Some((|| ibig!(axx), || ibig!(-axx)))),
    ("_axb", None, || ubig!(_axb), None),
    ("axb", None, || ubig!(axb), Some((|| ibig!(axb), || ibig!(-axb)))),
    ("_ab0", None, || ubig!(_ab0), None),
    ("ab0", None, || ubig!(ab0), Some((|| ibig!(ab0), || ibig!(-ab0)))),
    ("_ab1", None, || ubig!(_ab1), Some((|| ibig!(_ab1), || ibig!(-_ab1)))),
    ("ab1", None, || ubig!(ab1), Some((|| ibig!(ab1), || ibig!(-ab1)))),
    ("_aba", None, || ubig!(_aba), None),
    ("aba", None, || ubig!(aba), Some((|| ibig!(aba), || ibig!(-aba)))),
    ("_abx", None, || ubig!(_abx), None),
    ("abx", None, || ubig!(abx), Some((|| ibig!(abx), || ibig!(-abx)))),
    ("_abb", None, || ubig!(_abb), Some((|| ibig!(_abb), || ibig!(-_abb)))),
    ("abb", None, || ubig!(abb), Some((|| ibig!(abb), || ibig!(-abb)))),
    ("_x00", None, || ubig!(_x00), None),
    ("x00", None, || ubig!(x00), Some((|| ibig!(x00), || ibig!(-x00)))),
    ("_x01", None, || ubig!(_x01), None),
    ("x01", None, || ubig!(x01), Some((|| ibig!(x01), || ibig!(-x01)))),
    ("_x0a", None, || ubig!(_x0a), Some((|| ibig!(_x0a), || ibig!(-_x0a)))),
    ("x0a", None, || ubig!(x0a), Some((|| ibig!(x0a), || ibig!(-x0a)))),
    ("_x0x", None, || ubig!(_x0x), None),
    ("x0x", None, || ubig!(x0x), Some((|| ibig!(x0x), || ibig!(-x0x)))),
    ("_x0b", None, || ubig!(_x0b), None),
    ("x0b", None, || ubig!(x0b), Some((|| ibig!(x0b), || ibig!(-x0b)))),
    ("_x10", None, || ubig!(_x10), Some((|| ibig!(_x10), || ibig!(-_x10)))),
    ("x10", None, || ubig!(x10), Some((|| ibig!(x10), || ibig!(-x10)))),
    ("_x11", None, || ubig!(_x11), None),
    ("x11", None, || ubig!(x11), Some((|| ibig!(x11), || ibig!(-x11)))),
    ("_x1a", None, || ubig!(_x1a), None),
    ("x1a", None, || ubig!(x1a), Some((|| ibig!(x1a), || ibig!(-x1a)))),
    ("_x1x", None, || ubig!(_x1x), Some((|| ibig!(_x1x), || ibig!(-_x1x)))),
    ("x1x", None, || ubig!(x1x), Some((|| ibig!(x1x), || ibig!(-x1x)))),
    ("_x1b", None, || ubig!(_x1b), None),
    ("x1b", None, || ubig!(x1b), Some((|| ibig!(x1b), || ibig!(-x1b)))),
    ("_xa0", None, || ubig!(_xa0), None),
    ("xa0", None, || ubig!(xa0), Some((|| ibig!(xa0), || ibig!(-xa0)))),
    ("_xa1", None, || ubig!(_xa1), Some((|| ibig!(_xa1), || ibig!(-_xa1)))),
    ("xa1", None, || ubig!(xa1), Some((|| ibig!(xa1), || ibig!(-xa1)))),
    ("_xaa", None, || ubig!(_xaa), None),
    ("xaa", None, || ubig!(xaa), Some((|| ibig!(xaa), || ibig!(-xaa)))),
    ("_xax", None, || ubig!(_xax), None),
    ("xax", None, || ubig!(xax), Some((|| ibig!(xax), || ibig!(-xax)))),
    ("_xab", None, || ubig!(_xab), Some((|| ibig!(_xab), || ibig!(-_xab)))),
    ("xab", None, || ubig!(xab), Some((|| ibig!(xab), || ibig!(-xab)))),
    ("_xx0", None, || ubig!(_xx0), None),
    ("xx0", None, || ubig!(xx0), Some((|| ibig!(xx0), || ibig!(-xx0)))),
    ("_xx1", None, || ubig!(_xx1), None),
    ("xx1", None, || ubig!(xx1), Some((|| ibig!(xx1), || ibig!(-xx1)))),
    ("_xxa", None, || ubig!(_xxa), Some((|| ibig!(_xxa), || ibig!(-_xxa)))),
    ("xxa", None, || ubig!(xxa), Some((|| ibig!(xxa), || ibig!(-xxa)))),
    ("_xxx", None, || ubig!(_xxx), None),
    ("xxx", None, || ubig!(xxx), Some((|| ibig!(xxx), || ibig!(-xxx)))),
    ("_xxb", None, || ubig!(_xxb), None),
    ("xxb", None, || ubig!(xxb), Some((|| ibig!(xxb), || ibig!(-xxb)))),
    ("_xb0", None, || ubig!(_xb0), Some((|| ibig!(_xb0), || ibig!(-_xb0)))),
    ("xb0", None, || ubig!(xb0), Some((|| ibig!(xb0), || ibig!(-xb0)))),
    ("_xb1", None, || ubig!(_xb1), None),
    ("xb1", None, || ubig!(xb1), Some((|| ibig!(xb1), || ibig!(-xb1)))),
    ("_xba", None, || ubig!(_xba), None),
    ("xba", None, || ubig!(xba), Some((|| ibig!(xba), || ibig!(-xba)))),
    ("_xbx", None, || ubig!(_xbx), Some((|| ibig!(_xbx), || ibig!(-_xbx)))),
    ("xbx", None, || ubig!(xbx), Some((|| ibig!(xbx), || ibig!(-xbx)))),
    ("_xbb", None, || ubig!(_xbb), None),
];
pub static PART10: &[Row] = &[
    ("xbb", None, || ubig!(xbb), Some((|| ibig!(xbb), || ibig!(-xbb)))),
    ("_b00", None, || ubig!(_b00), None),
    ("b00", None, || ubig!(b00), Some((|| ibig!(b00), || ibig!(-b00)))),
    ("_b01", None, || ubig!(_b01), Some((|| ibig!(_b01), || ibig!(-_b01)))),
    ("b01", None, || ubig!(b01), Some((|| ibig!(b01), || ibig!(-b01)))),
    ("_b0a", None, || ubig!(_b0a), None),
    ("b0a", None, || ubig!(b0a), Some((|| ibig!(b0a), || ibig!(-b0a)))),
    ("_b0x", None, || ubig!(_b0x), None),
    ("b0x", None, || ubig!(b0x), Some((|| ibig!(b0x), || ibig!(-b0x)))),
    ("_b0b", None, || ubig!(_b0b), Some((|| ibig!(_b0b), || ibig!(-_b0b)))),
    ("b0b", None, || ubig!(b0b), Some((|| ibig!(b0b), || ibig!(-b0b)))),
    ("_b10", None, || ubig!(_b10), None),
    ("b10", None, || ubig!(b10), Some((|| ibig!(b10), || ibig!(-b10)))),
    ("_b11", None, || ubig!(_b11), None),
    ("b11", None, || ubig!(b11), Some((|| ibig!(b11), || ibig!(-b11)))),
    ("_b1a", None, || ubig!(_b1a), Some((|| ibig!(_b1a), || ibig!(-_b1a)))),
    ("b1a", None, || ubig!(b1a), Some((|| ibig!(b1a), || ibig!(-b1a)))),
    ("_b1x", None, || ubig!(_b1x), None),
    ("b1x", None, || ubig!(b1x), Some((|| ibig!(b1x), || ibig!(-b1x)))),
    ("_b1b", None, || ubig!(_b1b), None),
    ("b1b", None, || ubig!(b1b), Some((|| ibig!(b1b), || ibig!(-b1b)))),
    ("_ba0", None, || ubig!(_ba0), Some((|| ibig!(_ba0), || ibig!(-_ba0)))),
    ("ba0", None, || ubig!(ba0), Some((|| ibig!(ba0), || ibig!(-ba0)))),
    ("_ba1", None, || ubig!(_ba1), None),
    ("ba1", None, || ubig!(ba1), Some((|| ibig!(ba1), || ibig!(-ba1)))),
    ("_baa", None, || ubig!(_baa), None),
    ("baa", None, || ubig!(baa), Some((|| ibig!(baa), || ibig!(-baa)))),
    ("_bax", None, || ubig!(_bax), Some((|| ibig!(_bax), || ibig!(-_bax)))),
    ("bax", None, || ubig!(bax), Some((|| ibig!(bax), || ibig!(-bax)))),
    ("_bab", None, || ubig!(_bab), None),
    ("bab", None, || ubig!(bab), Some((|| ibig!(bab), || ibig!(-bab)))),
    ("_bx0", None, || ubig!(_bx0), None),
    ("bx0", None, || ubig!(bx0), Some((|| ibig!(bx0), || ibig!(-bx0)))),
    ("_bx1", None, || ubig!(_bx1), Some((|| ibig!(_bx1), || ibig!(-_bx1)))),
    ("bx1", None, || ubig!(bx1), Some((|| ibig!(bx1), || ibig!(-bx1)))),
    ("_bxa", None, || ubig!(_bxa), None),
    ("bxa", None, || ubig!(bxa), Some((|| ibig!(bxa), || ibig!(-bxa)))),
    ("_bxx", None, || ubig!(_bxx), None),
    ("bxx", None, || ubig!(bxx), Some((|| ibig!(bxx), || ibig!(-bxx)))),
    ("_bxb", None, || ubig!(_bxb), Some((|| ibig!(_bxb), || ibig!(-_bxb)))),
    ("bxb", None, || ubig!(bxb), Some((|| ibig!(bxb), || ibig!(-bxb)))),
    ("_bb0", None, || ubig!(_bb0), None),
    ("bb0", None, || ubig!(bb0), Some((|| ibig!(bb0), || ibig!(-bb0)))),
    ("_bb1", None, || ubig!(_bb1), None),
    ("bb1", None, || ubig!(bb1), Some((|| ibig!(bb1), || ibig!(-bb1)))),
    ("_bba", None, || ubig!(_bba), Some((|| ibig!(_bba), || ibig!(-_bba)))),
    ("bba", None, || ubig!(bba), Some((|| ibig!(bba), || ibig!(-bba)))),
    ("_bbx", None, || ubig!(_bbx), None),
    ("bbx", None, || ubig!(bbx), Some((|| ibig!(bbx), || ibig!(-bbx)))),
    ("_bbb", None, || ubig!(_bbb), None),
    ("bbb", None, || ubig!(bbb), Some((|| ibig!(bbb), || ibig!(-bbb)))),
    ("_0b2", None, || ubig!(_0b2), Some((|| ibig!(_0b2), || ibig!(-_0b2)))),
    ("_0o8", None, || ubig!(_0o8), None),
    ("_0xg", None, || ubig!(_0xg), None),
    ("_0X1f", None, || ubig!(_0X1f), Some((|| ibig!(_0X1f), || ibig!(-_0X1f)))),
    ("_0B11", None, || ubig!(_0B11), None),
    ("_1_0", None, || ubig!(_1_0), None),
    ("__1", None, || ubig!(__1), Some((|| ibig!(__1), || ibig!(-__1)))),
    ("_0x_1", None, || ubig!(_0x_1), None),
    ("_0xffu128", None, || ubig!(_0xffu128), None),
    ("_12u8", None, || ubig!(_12u8), Some((|| ibig!(_12u8), || ibig!(-_12u8)))),
    ("_1e5", None, || ubig!(_1e5), None),
    ("_0 base 2", Some("0"), || ubig!(_0 base 2), None),
    ("0 base 2", Some("0"), || ubig!(0 base 2), Some((|| ibig!(0 base 2), || ibig!(-0 base 2)))),
    ("_1 base 2", Some("1"), || ubig!(_1 base 2), None),
    ("1 base 2", Some("1"), || ubig!(1 base 2), None),
    ("_2 base 2", None, || ubig!(_2 base 2), Some((|| ibig!(_2 base 2), || ibig!(-_2 base 2)))),
    ("2 base 2", None, || ubig!(2 base 2), None),
    ("_00 base 2", Some("0"), || ubig!(_00 base 2), None),
    ("00 base 2", Some("0"), || ubig!(00 base 2), Some((|| ibig!(00 base 2), || ibig!(-00 base 2)))),
    ("_01 base 2", Some("1"), || ubig!(_01 base 2), None),
    ("01 base 2", Some("1"), || ubig!(01 base 2), None),
    ("_02 base 2", None, || ubig!(_02 base 2), Some((|| ibig!(_02 base 2), || ibig!(-_02 base 2)))),
    ("02 base 2", None, || ubig!(02 base 2), None),
    ("_10 base 2", Some("2"), || ubig!(_10 base 2), None),
    ("10 base 2", Some("2"), || ubig!(10 base 2), Some((|| ibig!(10 base 2), || ibig!(-10 base 2)))),
    ("_11 base 2", Some("3"), || ubig!(_11 base 2), None),
    ("11 base 2", Some("3"), || ubig!(11 base 2), None),
    ("_12 base 2", None, || ubig!(_12 base 2), Some((|| ibig!(_12 base 2), || ibig!(-_12 base 2)))),
    ("12 base 2", None, || ubig!(12 base 2), None),
    ("_20 base 2", None, || ubig!(_20 base 2), None),
    ("20 base 2", None, || ubig!(20 base 2), Some((|| ibig!(20 base 2), || ibig!(-20 base 2)))),
    ("_21 base 2", None, || ubig!(_21 base 2), None),
    ("21 base 2", None, || ubig!(21 base 2), None),
    ("_22 base 2", None, || ubig!(_22 base 2), Some((|| ibig!(_22 base 2), || ibig!(-_22 base 2)))),
    ("22 base 2", None, || ubig!(22 base 2), None),
    ("_000 base 2", Some("0"), || ubig!(_000 base 2), None),
    ("000 base 2", Some("0"), || ubig!(000 base 2), Some((|| ibig!(000 base 2), || ibig!(-000 base 2)))),
    ("_001 base 2", Some("1"), || ubig!(_001 base 2), None),
    ("001 base 2", Some("1"), || ubig!(001 base 2), None),
    ("_002 base 2", None, || ubig!(_002 base 2), Some((|| ibig!(_002 base 2), || ibig!(-_002 base 2)))),
    ("002 base 2", None, || ubig!(002 base 2), None),
    ("_010 base 2", Some("2"), || ubig!(_010 base 2), None),
    ("010 base 2", Some("2"), || ubig!(010 base 2), Some((|| ibig!(010 base 2), || ibig!(-010 base 2)))),
    ("_011 base 2", Some("3"), || ubig!(_011 base 2), None),
    ("011 base 2", Some("3"), || ubig!(011 base 2), None),
    ("_012 base 2", None, || ubig!(_012 base 2), Some((|| ibig!(_012 base 2), || ibig!(-_012 base 2)))),
    ("012 base 2", None, || ubig!(012 base 2), None),
    ("_020 base 2", None, || ubig!(_020 base 2), None),
    ("020 base 2", None, || ubig!(020 base 2), Some((|| ibig!(020 base 2), || ibig!(-020 base 2)))),
    ("_021 base 2", None, || ubig!(_021 base 2), None),
    ("021 base 2", None, || ubig!(021 base 2), None),
    ("_022 base 2", None, || ubig!(_022 base 2), Some((|| ibig!(_022 base 2), || ibig!(-_022 base 2)))),
    ("022 base 2", None, || ubig!(022 base 2), None),
    ("_100 base 2", Some("4"), || ubig!(_100 base 2), None),
    ("100 base 2", Some("4"), || ubig!(100 base 2), Some((|| ibig!(100 base 2), || ibig!(-100 base 2)))),
    ("_101 base 2", Some("5"), || ubig!(_101 base 2), None),
    ("101 base 2", Some("5"), || ubig!(101 base 2), None),
    ("_102 base 2", None, || ubig!(_102 base 2), Some((|| ibig!(_102 base 2), || ibig!(-_102 base 2)))),
    ("102 base 2", None, || ubig!(102 base 2), None),
    ("_110 base 2", Some("6"), || ubig!(_110 base 2), None),
    ("110 base 2", Some("6"), || ubig!(110 base 2), Some((|| ibig!(110 base 2), || ibig!(-110 base 2)))),
    ("_111 base 2", Some("7"), || ubig!(_111 base 2), None),
    ("111 base 2", Some("7"), || ubig!(111 base 2), None),
    ("_112 base 2", None, || ubig!(_112 base 2), Some((|| ibig!(_112 base 2), || ibig!(-_112 base 2)))),
    ("112 base 2", None, || ubig!(112 base 2), None),
    ("_120 base 2", None, || ubig!(_120 base 2), None),
    ("120 base 2", None, || ubig!(120 base 2), Some((|| ibig!(120 base 2), || ibig!(-120 base 2)))),
    ("_121 base 2", None, || ubig!(_121 base 2), None),
    ("121 base 2", None, || ubig!(121 base 2), None),
    ("_122 base 2", None, || ubig!(_122 base 2), Some((|| ibig!(_122 base 2), || ibig!(-_122 base 2)))),
    ("122 base 2", None, || ubig!(122 base 2), None),
    ("_200 base 2", None, || ubig!(_200 base 2), None),
    ("200 base 2", None, || ubig!(200 base 2), Some((|| ibig!(200 base 2), || ibig!(-200 base 2)))),
    ("_201 base 2", None, || ubig!(_201 base 2), None),
    ("201 base 2", None, || ubig!(201 base 2), None),
    ("_202 base 2", None, || ubig!(_202 base 2), Some((|| ibig!(_202 base 2), || ibig!(-_202 base 2)))),
    ("202 base 2", None, || ubig!(202 base 2), None),
    ("_210 base 2", None, || ubig!(_210 base 2), None),
    ("210 base 2", None, || ubig!(210 base 2), Some((|| ibig!(210 base 2), || ibig!(-210 base 2)))),
    ("_211 base 2", None, || ubig!(_211 base 2), None),
    ("211 base 2", None, || ubig!(211 base 2), None),
    ("_212 base 2", None, || ubig!(_212 base 2), Some((|| ibig!(_212 base 2), || ibig!(-_212 base 2)))),
    ("212 base 2", None, || ubig!(212 base 2), None),
    ("_220 base 2", None, || ubig!(_220 base 2), None),
    ("220 base 2", None, || ubig!(220 base 2), Some((|| ibig!(220 base 2), || ibig!(-220 base 2)))),
    ("_221 base 2", None, || ubig!(_221 base 2), None),
    ("221 base 2", None, || ubig!(221 base 2), None),
    ("_222 base 2", None, || ubig!(_222 base 2), Some((|| ibig!(_222 base 2), || ibig!(-_222 base 2)))),
    ("222 base 2", None, || ubig!(222 base 2), None),
    ("_1111111 base 2", Some("7f"), || ubig!(_1111111 base 2), None),
    ("_1000000000000000 base 2", Some("8000"), || ubig!(_1000000000000000 base 2), Some((|| ibig!(_1000000000000000 base 2), || ibig!(-_1000000000000000 base 2)))),
    ("_100000000000000001 base 2", Some("20001"), || ubig!(_100000000000000001 base 2), None),
    ("_111111111111111111111111111111111 base 2", Some("1ffffffff"), || ubig!(_111111111111111111111111111111111 base 2), None),
    ("_1000000000000000000000000000000000000000000000000 base 2", Some("1000000000000"), || ubig!(_1000000000000000000000000000000000000000000000000 base 2), Some((|| ibig!(_1000000000000000000000000000000000000000000000000 base 2), || ibig!(-_1000000000000000000000000000000000000000000000000 base 2)))),
    ("_10000000000000000000000000000000000000000000000000000000000000001 base 2", Some("10000000000000001"), || ubig!(_10000000000000000000000000000000000000000000000000000000000000001 base 2), None),
    ("_11111111111111111111111111111111111111111111111111111111111111111111111111111111 base 2", Some("ffffffffffffffffffff"), || ubig!(_11111111111111111111111111111111111111111111111111111111111111111111111111111111 base 2), None),
    ("_1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2", Some("1000000000000000000000000"), || ubig!(_1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2), Some((|| ibig!(_1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2), || ibig!(-_1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2)))),
    ("_10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001 base 2", Some("80000000000000000000000000000001"), || ubig!(_10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001 base 2), None),
    ("_1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111 base 2", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111 base 2), None),
];
pub static PART11: &[Row] = &[
    ("_1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2), Some((|| ibig!(_1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2), || ibig!(-_1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2)))),
    ("_100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001 base 2", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001 base 2), None),
    ("_100100011010001010110011110001001101010111100110111101111000011111110110111001011101010011000011101100101010000110010000100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_100100011010001010110011110001001101010111100110111101111000011111110110111001011101010011000011101100101010000110010000100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 2), None),
    ("_1000000000000 base 2", Some("1000"), || ubig!(_1000000000000 base 2), Some((|| ibig!(_1000000000000 base 2), || ibig!(-_1000000000000 base 2)))),
    ("_1111111111111111111111111111111111111111 base 2", Some("ffffffffff"), || ubig!(_1111111111111111111111111111111111111111 base 2), None),
    ("_100000000000000000000000000000000000000000 base 2", Some("20000000000"), || ubig!(_100000000000000000000000000000000000000000 base 2), None),
    ("_1_0 base 2", None, || ubig!(_1_0 base 2), Some((|| ibig!(_1_0 base 2), || ibig!(-_1_0 base 2)))),
    ("__1 base 2", None, || ubig!(__1 base 2), None),
    ("1_0 base 2", None, || ubig!(1_0 base 2), None),
    ("_0 base 3", Some("0"), || ubig!(_0 base 3), Some((|| ibig!(_0 base 3), || ibig!(-_0 base 3)))),
    ("0 base 3", Some("0"), || ubig!(0 base 3), None),
    ("_1 base 3", Some("1"), || ubig!(_1 base 3), None),
    ("1 base 3", Some("1"), || ubig!(1 base 3), Some((|| ibig!(1 base 3), || ibig!(-1 base 3)))),
    ("_2 base 3", Some("2"), || ubig!(_2 base 3), None),
    ("2 base 3", Some("2"), || ubig!(2 base 3), None),
    ("_3 base 3", None, || ubig!(_3 base 3), Some((|| ibig!(_3 base 3), || ibig!(-_3 base 3)))),
    ("3 base 3", None, || ubig!(3 base 3), None),
    ("_00 base 3", Some("0"), || ubig!(_00 base 3), None),
    ("00 base 3", Some("0"), || ubig!(00 base 3), Some((|| ibig!(00 base 3), || ibig!(-00 base 3)))),
    ("_01 base 3", Some("1"), || ubig!(_01 base 3), None),
    ("01 base 3", Some("1"), || ubig!(01 base 3), None),
    ("_02 base 3", Some("2"), || ubig!(_02 base 3), Some((|| ibig!(_02 base 3), || ibig!(-_02 base 3)))),
    ("02 base 3", Some("2"), || ubig!(02 base 3), None),
    ("_03 base 3", None, || ubig!(_03 base 3), None),
    ("03 base 3", None, || ubig!(03 base 3), Some((|| ibig!(03 base 3), || ibig!(-03 base 3)))),
    ("_10 base 3", Some("3"), || ubig!(_10 base 3), None),
    ("10 base 3", Some("3"), || ubig!(10 base 3), None),
    ("_11 base 3", Some("4"), || ubig!(_11 base 3), Some((|| ibig!(_11 base 3), || ibig!(-_11 base 3)))),
    ("11 base 3", Some("4"), || ubig!(11 base 3), None),
    ("_12 base 3", Some("5"), || ubig!(_12 base 3), None),
    ("12 base 3", Some("5"), || ubig!(12 base 3), Some((|| ibig!(12 base 3), || ibig!(-12 base 3)))),
    ("_13 base 3", None, || ubig!(_13 base 3), None),
    ("13 base 3", None, || ubig!(13 base 3), None),
    ("_20 base 3", Some("6"), || ubig!(_20 base 3), Some((|| ibig!(_20 base 3), || ibig!(-_20 base 3)))),
    ("20 base 3", Some("6"), || ubig!(20 base 3), None),
    ("_21 base 3", Some("7"), || ubig!(_21 base 3), None),
    ("21 base 3", Some("7"), || ubig!(21 base 3), Some((|| ibig!(21 base 3), || ibig!(-21 base 3)))),
    ("_22 base 3", Some("8"), || ubig!(_22 base 3), None),
    ("22 base 3", Some("8"), || ubig!(22 base 3), None),
    ("_23 base 3", None, || ubig!(_23 base 3), Some((|| ibig!(_23 base 3), || ibig!(-_23 base 3)))),
    ("23 base 3", None, || ubig!(23 base 3), None),
    ("_30 base 3", None, || ubig!(_30 base 3), None),
    ("30 base 3", None, || ubig!(30 base 3), Some((|| ibig!(30 base 3), || ibig!(-30 base 3)))),
    ("_31 base 3", None, || ubig!(_31 base 3), None),
    ("31 base 3", None, || ubig!(31 base 3), None),
    ("_32 base 3", None, || ubig!(_32 base 3), Some((|| ibig!(_32 base 3), || ibig!(-_32 base 3)))),
    ("32 base 3", None, || ubig!(32 base 3), None),
    ("_33 base 3", None, || ubig!(_33 base 3), None),
    ("33 base 3", None, || ubig!(33 base 3), Some((|| ibig!(33 base 3), || ibig!(-33 base 3)))),
    ("_11201 base 3", Some("7f"), || ubig!(_11201 base 3), None),
    ("_1122221122 base 3", Some("8000"), || ubig!(_1122221122 base 3), None),
    ("_20122210120 base 3", Some("20001"), || ubig!(_20122210120 base 3), Some((|| ibig!(_20122210120 base 3), || ibig!(-_20122210120 base 3)))),
    ("_211011122110220000121 base 3", Some("1ffffffff"), || ubig!(_211011122110220000121 base 3), None),
    ("_1100220121202010002101102010201 base 3", Some("1000000000000"), || ubig!(_1100220121202010002101102010201 base 3), None),
    ("_11112220022122120101211020120210210211222 base 3", Some("10000000000000001"), || ubig!(_11112220022122120101211020120210210211222 base 3), Some((|| ibig!(_11112220022122120101211020120210210211222 base 3), || ibig!(-_11112220022122120101211020120210210211222 base 3)))),
    ("_120011012120222220121220221021201122111122110011110 base 3", Some("ffffffffffffffffffff"), || ubig!(_120011012120222220121220221021201122111122110011110 base 3), None),
    ("_1212110111002210101020122121220102012011122012011002222201101 base 3", Some("1000000000000000000000000"), || ubig!(_1212110111002210101020122121220102012011122012011002222201101 base 3), None),
    ("_101100201022001010121000102002120122110122221010202000122201220121120010200022010 base 3", Some("80000000000000000000000000000001"), || ubig!(_101100201022001010121000102002120122110122221010202000122201220121120010200022010 base 3), Some((|| ibig!(_101100201022001010121000102002120122110122221010202000122201220121120010200022010 base 3), || ibig!(-_101100201022001010121000102002120122110122221010202000122201220121120010200022010 base 3)))),
    ("_22111200212110210121112201221101020201211222202211202222010210002111111201101120221012122101022002020 base 3", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_22111200212110210121112201221101020201211222202211202222010210002111111201101120221012122101022002020 base 3), None),
    ("_21221122120122222122111102102022200000222110021112111220122201212220210112102122001220100010001210120212210102020010111121211022111102111220220201211121011101022 base 3", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_21221122120122222122111102102022200000222110021112111220122201212220210112102122001220100010001210120212210102020010111121211022111102111220220201211121011101022 base 3), None),
    ("_2200101010120101012002111221221012212221112012211202021220210021002002012121222200211000201000122211221020111112020020112010201120011120221201221201011101212221110011201201102200001220111220112100002212 base 3", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_2200101010120101012002111221221012212221112012211202021220210021002002012121222200211000201000122211221020111112020020112010201120011120221201221201011101212221110011201201102200001220111220112100002212 base 3), Some((|| ibig!(_2200101010120101012002111221221012212221112012211202021220210021002002012121222200211000201000122211221020111112020020112010201120011120221201221201011101212221110011201201102200001220111220112100002212 base 3), || ibig!(-_2200101010120101012002111221221012212221112012211202021220210021002002012121222200211000201000122211221020111112020020112010201120011120221201221201011101212221110011201201102200001220111220112100002212 base 3)))),
    ("_1122001121122122110211222212000001200100000102011010012011101212112201011112221122101001212012210021120200001112001102111121201110000222101220 base 3", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_1122001121122122110211222212000001200100000102011010012011101212112201011112221122101001212012210021120200001112001102111121201110000222101220 base 3), None),
    ("_1000000000000 base 3", Some("81bf1"), || ubig!(_1000000000000 base 3), None),
    ("_2222222222222222222222222222222222222222 base 3", Some("a8b8b452291fe820"), || ubig!(_2222222222222222222222222222222222222222 base 3), Some((|| ibig!(_2222222222222222222222222222222222222222 base 3), || ibig!(-_2222222222222222222222222222222222222222 base 3)))),
    ("_100000000000000000000000000000000000000000 base 3", Some("1fa2a1cf67b5fb863"), || ubig!(_100000000000000000000000000000000000000000 base 3), None),
    ("_1_0 base 3", None, || ubig!(_1_0 base 3), None),
    ("__1 base 3", None, || ubig!(__1 base 3), Some((|| ibig!(__1 base 3), || ibig!(-__1 base 3)))),
    ("1_0 base 3", None, || ubig!(1_0 base 3), None),
    ("_0 base 4", Some("0"), || ubig!(_0 base 4), None),
    ("0 base 4", Some("0"), || ubig!(0 base 4), Some((|| ibig!(0 base 4), || ibig!(-0 base 4)))),
    ("_1 base 4", Some("1"), || ubig!(_1 base 4), None),
    ("1 base 4", Some("1"), || ubig!(1 base 4), None),
    ("_2 base 4", Some("2"), || ubig!(_2 base 4), Some((|| ibig!(_2 base 4), || ibig!(-_2 base 4)))),
    ("2 base 4", Some("2"), || ubig!(2 base 4), None),
    ("_3 base 4", Some("3"), || ubig!(_3 base 4), None),
    ("3 base 4", Some("3"), || ubig!(3 base 4), Some((|| ibig!(3 base 4), || ibig!(-3 base 4)))),
    ("_4 base 4", None, || ubig!(_4 base 4), None),
    ("4 base 4", None, || ubig!(4 base 4), None),
    ("_00 base 4", Some("0"), || ubig!(_00 base 4), Some((|| ibig!(_00 base 4), || ibig!(-_00 base 4)))),
    ("00 base 4", Some("0"), || ubig!(00 base 4), None),
    ("_01 base 4", Some("1"), || ubig!(_01 base 4), None),
    ("01 base 4", Some("1"), || ubig!(01 base 4), Some((|| ibig!(01 base 4), || ibig!(-01 base 4)))),
    ("_02 base 4", Some("2"), || ubig!(_02 base 4), None),
    ("02 base 4", Some("2"), || ubig!(02 base 4), None),
    ("_03 base 4", Some("3"), || ubig!(_03 base 4), Some((|| ibig!(_03 base 4), || ibig!(-_03 base 4)))),
    ("03 base 4", Some("3"), || ubig!(03 base 4), None),
    ("_04 base 4", None, || ubig!(_04 base 4), None),
    ("04 base 4", None, || ubig!(04 base 4), Some((|| ibig!(04 base 4), || ibig!(-04 base 4)))),
    ("_10 base 4", Some("4"), || ubig!(_10 base 4), None),
    ("10 base 4", Some("4"), || ubig!(10 base 4), None),
    ("_11 base 4", Some("5"), || ubig!(_11 base 4), Some((|| ibig!(_11 base 4), || ibig!(-_11 base 4)))),
    ("11 base 4", Some("5"), || ubig!(11 base 4), None),
    ("_12 base 4", Some("6"), || ubig!(_12 base 4), None),
    ("12 base 4", Some("6"), || ubig!(12 base 4), Some((|| ibig!(12 base 4), || ibig!(-12 base 4)))),
    ("_13 base 4", Some("7"), || ubig!(_13 base 4), None),
    ("13 base 4", Some("7"), || ubig!(13 base 4), None),
    ("_14 base 4", None, || ubig!(_14 base 4), Some((|| ibig!(_14 base 4), || ibig!(-_14 base 4)))),
    ("14 base 4", None, || ubig!(14 base 4), None),
    ("_20 base 4", Some("8"), || ubig!(_20 base 4), None),
    ("20 base 4", Some("8"), || ubig!(20 base 4), Some((|| ibig!(20 base 4), || ibig!(-20 base 4)))),
    ("_21 base 4", Some("9"), || ubig!(_21 base 4), None),
    ("21 base 4", Some("9"), || ubig!(21 base 4), None),
    ("_22 base 4", Some("a"), || ubig!(_22 base 4), Some((|| ibig!(_22 base 4), || ibig!(-_22 base 4)))),
    ("22 base 4", Some("a"), || ubig!(22 base 4), None),
    ("_23 base 4", Some("b"), || ubig!(_23 base 4), None),
    ("23 base 4", Some("b"), || ubig!(23 base 4), Some((|| ibig!(23 base 4), || ibig!(-23 base 4)))),
    ("_24 base 4", None, || ubig!(_24 base 4), None),
    ("24 base 4", None, || ubig!(24 base 4), None),
    ("_30 base 4", Some("c"), || ubig!(_30 base 4), Some((|| ibig!(_30 base 4), || ibig!(-_30 base 4)))),
    ("30 base 4", Some("c"), || ubig!(30 base 4), None),
    ("_31 base 4", Some("d"), || ubig!(_31 base 4), None),
    ("31 base 4", Some("d"), || ubig!(31 base 4), Some((|| ibig!(31 base 4), || ibig!(-31 base 4)))),
    ("_32 base 4", Some("e"), || ubig!(_32 base 4), None),
    ("32 base 4", Some("e"), || ubig!(32 base 4), None),
    ("_33 base 4", Some("f"), || ubig!(_33 base 4), Some((|| ibig!(_33 base 4), || ibig!(-_33 base 4)))),
    ("33 base 4", Some("f"), || ubig!(33 base 4), None),
    ("_34 base 4", None, || ubig!(_34 base 4), None),
    ("34 base 4", None, || ubig!(34 base 4), Some((|| ibig!(34 base 4), || ibig!(-34 base 4)))),
    ("_40 base 4", None, || ubig!(_40 base 4), None),
    ("40 base 4", None, || ubig!(40 base 4), None),
    ("_41 base 4", None, || ubig!(_41 base 4), Some((|| ibig!(_41 base 4), || ibig!(-_41 base 4)))),
    ("41 base 4", None, || ubig!(41 base 4), None),
    ("_42 base 4", None, || ubig!(_42 base 4), None),
    ("42 base 4", None, || ubig!(42 base 4), Some((|| ibig!(42 base 4), || ibig!(-42 base 4)))),
    ("_43 base 4", None, || ubig!(_43 base 4), None),
    ("43 base 4", None, || ubig!(43 base 4), None),
    ("_44 base 4", None, || ubig!(_44 base 4), Some((|| ibig!(_44 base 4), || ibig!(-_44 base 4)))),
    ("44 base 4", None, || ubig!(44 base 4), None),
    ("_1333 base 4", Some("7f"), || ubig!(_1333 base 4), None),
    ("_20000000 base 4", Some("8000"), || ubig!(_20000000 base 4), Some((|| ibig!(_20000000 base 4), || ibig!(-_20000000 base 4)))),
    ("_200000001 base 4", Some("20001"), || ubig!(_200000001 base 4), None),
    ("_13333333333333333 base 4", Some("1ffffffff"), || ubig!(_13333333333333333 base 4), None),
    ("_1000000000000000000000000 base 4", Some("1000000000000"), || ubig!(_1000000000000000000000000 base 4), Some((|| ibig!(_1000000000000000000000000 base 4), || ibig!(-_1000000000000000000000000 base 4)))),
    ("_100000000000000000000000000000001 base 4", Some("10000000000000001"), || ubig!(_100000000000000000000000000000001 base 4), None),
    ("_3333333333333333333333333333333333333333 base 4", Some("ffffffffffffffffffff"), || ubig!(_3333333333333333333333333333333333333333 base 4), None),
    ("_1000000000000000000000000000000000000000000000000 base 4", Some("1000000000000000000000000"), || ubig!(_1000000000000000000000000000000000000000000000000 base 4), Some((|| ibig!(_1000000000000000000000000000000000000000000000000 base 4), || ibig!(-_1000000000000000000000000000000000000000000000000 base 4)))),
    ("_2000000000000000000000000000000000000000000000000000000000000001 base 4", Some("80000000000000000000000000000001"), || ubig!(_2000000000000000000000000000000000000000000000000000000000000001 base 4), None),
    ("_33333333333333333333333333333333333333333333333333333333333333333333333333333333 base 4", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_33333333333333333333333333333333333333333333333333333333333333333333333333333333 base 4), None),
    ("_20000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 4", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_20000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 4), Some((|| ibig!(_20000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 4), || ibig!(-_20000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 4)))),
    ("_10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001 base 4", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001 base 4), None),
    ("_10203101112132021222330313233003332313023222120131211100302010000000000000000000000000000000000000000000000000000 base 4", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_10203101112132021222330313233003332313023222120131211100302010000000000000000000000000000000000000000000000000000 base 4), None),
    ("_1000000000000 base 4", Some("1000000"), || ubig!(_1000000000000 base 4), Some((|| ibig!(_1000000000000 base 4), || ibig!(-_1000000000000 base 4)))),
    ("_100000000000000000000000000000000000000000 base 4", Some("400000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 4), None),
    ("_1_0 base 4", None, || ubig!(_1_0 base 4), None),
    ("__1 base 4", None, || ubig!(__1 base 4), Some((|| ibig!(__1 base 4), || ibig!(-__1 base 4)))),
    ("1_0 base 4", None, || ubig!(1_0 base 4), None),
    ("_0 base 5", Some("0"), || ubig!(_0 base 5), None),
    ("0 base 5", Some("0"), || ubig!(0 base 5), Some((|| ibig!(0 base 5), || ibig!(-0 base 5)))),
    ("_1 base 5", Some("1"), || ubig!(_1 base 5), None),
    ("1 base 5", Some("1"), || ubig!(1 base 5), None),
];
pub static PART12: &[Row] = &[
    ("_2 base 5", Some("2"), || ubig!(_2 base 5), Some((|| ibig!(_2 base 5), || ibig!(-_2 base 5)))),
    ("2 base 5", Some("2"), || ubig!(2 base 5), None),
    ("_4 base 5", Some("4"), || ubig!(_4 base 5), None),
    ("4 base 5", Some("4"), || ubig!(4 base 5), Some((|| ibig!(4 base 5), || ibig!(-4 base 5)))),
    ("_5 base 5", None, || ubig!(_5 base 5), None),
    ("5 base 5", None, || ubig!(5 base 5), None),
    ("_00 base 5", Some("0"), || ubig!(_00 base 5), Some((|| ibig!(_00 base 5), || ibig!(-_00 base 5)))),
    ("00 base 5", Some("0"), || ubig!(00 base 5), None),
    ("_01 base 5", Some("1"), || ubig!(_01 base 5), None),
    ("01 base 5", Some("1"), || ubig!(01 base 5), Some((|| ibig!(01 base 5), || ibig!(-01 base 5)))),
    ("_02 base 5", Some("2"), || ubig!(_02 base 5), None),
    ("02 base 5", Some("2"), || ubig!(02 base 5), None),
    ("_04 base 5", Some("4"), || ubig!(_04 base 5), Some((|| ibig!(_04 base 5), || ibig!(-_04 base 5)))),
    ("04 base 5", Some("4"), || ubig!(04 base 5), None),
    ("_05 base 5", None, || ubig!(_05 base 5), None),
    ("05 base 5", None, || ubig!(05 base 5), Some((|| ibig!(05 base 5), || ibig!(-05 base 5)))),
    ("_10 base 5", Some("5"), || ubig!(_10 base 5), None),
    ("10 base 5", Some("5"), || ubig!(10 base 5), None),
    ("_11 base 5", Some("6"), || ubig!(_11 base 5), Some((|| ibig!(_11 base 5), || ibig!(-_11 base 5)))),
    ("11 base 5", Some("6"), || ubig!(11 base 5), None),
    ("_12 base 5", Some("7"), || ubig!(_12 base 5), None),
    ("12 base 5", Some("7"), || ubig!(12 base 5), Some((|| ibig!(12 base 5), || ibig!(-12 base 5)))),
    ("_14 base 5", Some("9"), || ubig!(_14 base 5), None),
    ("14 base 5", Some("9"), || ubig!(14 base 5), None),
    ("_15 base 5", None, || ubig!(_15 base 5), Some((|| ibig!(_15 base 5), || ibig!(-_15 base 5)))),
    ("15 base 5", None, || ubig!(15 base 5), None),
    ("_20 base 5", Some("a"), || ubig!(_20 base 5), None),
    ("20 base 5", Some("a"), || ubig!(20 base 5), Some((|| ibig!(20 base 5), || ibig!(-20 base 5)))),
    ("_21 base 5", Some("b"), || ubig!(_21 base 5), None),
    ("21 base 5", Some("b"), || ubig!(21 base 5), None),
    ("_22 base 5", Some("c"), || ubig!(_22 base 5), Some((|| ibig!(_22 base 5), || ibig!(-_22 base 5)))),
    ("22 base 5", Some("c"), || ubig!(22 base 5), None),
    ("_24 base 5", Some("e"), || ubig!(_24 base 5), None),
    ("24 base 5", Some("e"), || ubig!(24 base 5), Some((|| ibig!(24 base 5), || ibig!(-24 base 5)))),
    ("_25 base 5", None, || ubig!(_25 base 5), None),
    ("25 base 5", None, || ubig!(25 base 5), None),
    ("_40 base 5", Some("14"), || ubig!(_40 base 5), Some((|| ibig!(_40 base 5), || ibig!(-_40 base 5)))),
    ("40 base 5", Some("14"), || ubig!(40 base 5), None),
    ("_41 base 5", Some("15"), || ubig!(_41 base 5), None),
    ("41 base 5", Some("15"), || ubig!(41 base 5), Some((|| ibig!(41 base 5), || ibig!(-41 base 5)))),
    ("_42 base 5", Some("16"), || ubig!(_42 base 5), None),
    ("42 base 5", Some("16"), || ubig!(42 base 5), None),
    ("_44 base 5", Some("18"), || ubig!(_44 base 5), Some((|| ibig!(_44 base 5), || ibig!(-_44 base 5)))),
    ("44 base 5", Some("18"), || ubig!(44 base 5), None),
    ("_45 base 5", None, || ubig!(_45 base 5), None),
    ("45 base 5", None, || ubig!(45 base 5), Some((|| ibig!(45 base 5), || ibig!(-45 base 5)))),
    ("_50 base 5", None, || ubig!(_50 base 5), None),
    ("50 base 5", None, || ubig!(50 base 5), None),
    ("_51 base 5", None, || ubig!(_51 base 5), Some((|| ibig!(_51 base 5), || ibig!(-_51 base 5)))),
    ("51 base 5", None, || ubig!(51 base 5), None),
    ("_52 base 5", None, || ubig!(_52 base 5), None),
    ("52 base 5", None, || ubig!(52 base 5), Some((|| ibig!(52 base 5), || ibig!(-52 base 5)))),
    ("_54 base 5", None, || ubig!(_54 base 5), None),
    ("54 base 5", None, || ubig!(54 base 5), None),
    ("_55 base 5", None, || ubig!(_55 base 5), Some((|| ibig!(_55 base 5), || ibig!(-_55 base 5)))),
    ("55 base 5", None, || ubig!(55 base 5), None),
    ("_1002 base 5", Some("7f"), || ubig!(_1002 base 5), None),
    ("_2022033 base 5", Some("8000"), || ubig!(_2022033 base 5), Some((|| ibig!(_2022033 base 5), || ibig!(-_2022033 base 5)))),
    ("_13143243 base 5", Some("20001"), || ubig!(_13143243 base 5), None),
    ("_120043010401331 base 5", Some("1ffffffff"), || ubig!(_120043010401331 base 5), None),
    ("_243343141223014220111 base 5", Some("1000000000000"), || ubig!(_243343141223014220111 base 5), Some((|| ibig!(_243343141223014220111 base 5), || ibig!(-_243343141223014220111 base 5)))),
    ("_2214220303114400424121122432 base 5", Some("10000000000000001"), || ubig!(_2214220303114400424121122432 base 5), None),
    ("_20143014114300212012041022211044200 base 5", Some("ffffffffffffffffffff"), || ubig!(_20143014114300212012041022211044200 base 5), None),
    ("_133234224331331114424220224113034222402321 base 5", Some("1000000000000000000000000"), || ubig!(_133234224331331114424220224113034222402321 base 5), Some((|| ibig!(_133234224331331114424220224113034222402321 base 5), || ibig!(-_133234224331331114424220224113034222402321 base 5)))),
    ("_3013030220323124042102424341431241221233040112312340404 base 5", Some("80000000000000000000000000000001"), || ubig!(_3013030220323124042102424341431241221233040112312340404 base 5), None),
    ("_412404441313132032201223402040442303410400104433140423020322212333400 base 5", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_412404441313132032201223402040442303410400104433140423020322212333400 base 5), None),
    ("_33343232402411442224331410114410002103143324023003242313133442033313110111332210012111100301020311021043214333 base 5", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_33343232402411442224331410114410002103143324023003242313133442033313110111332210012111100301020311021043214333 base 5), Some((|| ibig!(_33343232402411442224331410114410002103143324023003242313133442033313110111332210012111100301020311021043214333 base 5), || ibig!(-_33343232402411442224331410114410002103143324023003242313133442033313110111332210012111100301020311021043214333 base 5)))),
    ("_333004202211014104324122334034300210200411143314034424114201211003104421343131333133111423324003404224013323220300030340102202323223432302 base 5", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_333004202211014104324122334034300210200411143314034424114201211003104421343131333133111423324003404224013323220300030340102202323223432302 base 5), None),
    ("_2203343022412100003433332031104103043234243214024000314341234402204130231240003123432424320034330 base 5", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_2203343022412100003433332031104103043234243214024000314341234402204130231240003123432424320034330 base 5), None),
    ("_1000000000000 base 5", Some("e8d4a51"), || ubig!(_1000000000000 base 5), Some((|| ibig!(_1000000000000 base 5), || ibig!(-_1000000000000 base 5)))),
    ("_4444444444444444444444444444444444444444 base 5", Some("1d6329f1c35ca4bfabb9f560"), || ubig!(_4444444444444444444444444444444444444444 base 5), None),
    ("_100000000000000000000000000000000000000000 base 5", Some("92efd1b8d0cf37be5aa1cae5"), || ubig!(_100000000000000000000000000000000000000000 base 5), None),
    ("_1_0 base 5", None, || ubig!(_1_0 base 5), Some((|| ibig!(_1_0 base 5), || ibig!(-_1_0 base 5)))),
    ("__1 base 5", None, || ubig!(__1 base 5), None),
    ("1_0 base 5", None, || ubig!(1_0 base 5), None),
    ("_0 base 6", Some("0"), || ubig!(_0 base 6), Some((|| ibig!(_0 base 6), || ibig!(-_0 base 6)))),
    ("0 base 6", Some("0"), || ubig!(0 base 6), None),
    ("_1 base 6", Some("1"), || ubig!(_1 base 6), None),
    ("1 base 6", Some("1"), || ubig!(1 base 6), Some((|| ibig!(1 base 6), || ibig!(-1 base 6)))),
    ("_3 base 6", Some("3"), || ubig!(_3 base 6), None),
    ("3 base 6", Some("3"), || ubig!(3 base 6), None),
    ("_5 base 6", Some("5"), || ubig!(_5 base 6), Some((|| ibig!(_5 base 6), || ibig!(-_5 base 6)))),
    ("5 base 6", Some("5"), || ubig!(5 base 6), None),
    ("_6 base 6", None, || ubig!(_6 base 6), None),
    ("6 base 6", None, || ubig!(6 base 6), Some((|| ibig!(6 base 6), || ibig!(-6 base 6)))),
    ("_00 base 6", Some("0"), || ubig!(_00 base 6), None),
    ("00 base 6", Some("0"), || ubig!(00 base 6), None),
    ("_01 base 6", Some("1"), || ubig!(_01 base 6), Some((|| ibig!(_01 base 6), || ibig!(-_01 base 6)))),
    ("01 base 6", Some("1"), || ubig!(01 base 6), None),
    ("_03 base 6", Some("3"), || ubig!(_03 base 6), None),
    ("03 base 6", Some("3"), || ubig!(03 base 6), Some((|| ibig!(03 base 6), || ibig!(-03 base 6)))),
    ("_05 base 6", Some("5"), || ubig!(_05 base 6), None),
    ("05 base 6", Some("5"), || ubig!(05 base 6), None),
    ("_06 base 6", None, || ubig!(_06 base 6), Some((|| ibig!(_06 base 6), || ibig!(-_06 base 6)))),
    ("06 base 6", None, || ubig!(06 base 6), None),
    ("_10 base 6", Some("6"), || ubig!(_10 base 6), None),
    ("10 base 6", Some("6"), || ubig!(10 base 6), Some((|| ibig!(10 base 6), || ibig!(-10 base 6)))),
    ("_11 base 6", Some("7"), || ubig!(_11 base 6), None),
    ("11 base 6", Some("7"), || ubig!(11 base 6), None),
    ("_13 base 6", Some("9"), || ubig!(_13 base 6), Some((|| ibig!(_13 base 6), || ibig!(-_13 base 6)))),
    ("13 base 6", Some("9"), || ubig!(13 base 6), None),
    ("_15 base 6", Some("b"), || ubig!(_15 base 6), None),
    ("15 base 6", Some("b"), || ubig!(15 base 6), Some((|| ibig!(15 base 6), || ibig!(-15 base 6)))),
    ("_16 base 6", None, || ubig!(_16 base 6), None),
    ("16 base 6", None, || ubig!(16 base 6), None),
    ("_30 base 6", Some("12"), || ubig!(_30 base 6), Some((|| ibig!(_30 base 6), || ibig!(-_30 base 6)))),
    ("30 base 6", Some("12"), || ubig!(30 base 6), None),
    ("_31 base 6", Some("13"), || ubig!(_31 base 6), None),
    ("31 base 6", Some("13"), || ubig!(31 base 6), Some((|| ibig!(31 base 6), || ibig!(-31 base 6)))),
    ("_33 base 6", Some("15"), || ubig!(_33 base 6), None),
    ("33 base 6", Some("15"), || ubig!(33 base 6), None),
    ("_35 base 6", Some("17"), || ubig!(_35 base 6), Some((|| ibig!(_35 base 6), || ibig!(-_35 base 6)))),
    ("35 base 6", Some("17"), || ubig!(35 base 6), None),
    ("_36 base 6", None, || ubig!(_36 base 6), None),
    ("36 base 6", None, || ubig!(36 base 6), Some((|| ibig!(36 base 6), || ibig!(-36 base 6)))),
    ("_50 base 6", Some("1e"), || ubig!(_50 base 6), None),
    ("50 base 6", Some("1e"), || ubig!(50 base 6), None),
    ("_51 base 6", Some("1f"), || ubig!(_51 base 6), Some((|| ibig!(_51 base 6), || ibig!(-_51 base 6)))),
    ("51 base 6", Some("1f"), || ubig!(51 base 6), None),
    ("_53 base 6", Some("21"), || ubig!(_53 base 6), None),
    ("53 base 6", Some("21"), || ubig!(53 base 6), Some((|| ibig!(53 base 6), || ibig!(-53 base 6)))),
    ("_55 base 6", Some("23"), || ubig!(_55 base 6), None),
    ("55 base 6", Some("23"), || ubig!(55 base 6), None),
    ("_56 base 6", None, || ubig!(_56 base 6), Some((|| ibig!(_56 base 6), || ibig!(-_56 base 6)))),
    ("56 base 6", None, || ubig!(56 base 6), None),
    ("_60 base 6", None, || ubig!(_60 base 6), None),
    ("60 base 6", None, || ubig!(60 base 6), Some((|| ibig!(60 base 6), || ibig!(-60 base 6)))),
    ("_61 base 6", None, || ubig!(_61 base 6), None),
    ("61 base 6", None, || ubig!(61 base 6), None),
    ("_63 base 6", None, || ubig!(_63 base 6), Some((|| ibig!(_63 base 6), || ibig!(-_63 base 6)))),
    ("63 base 6", None, || ubig!(63 base 6), None),
    ("_65 base 6", None, || ubig!(_65 base 6), None),
    ("65 base 6", None, || ubig!(65 base 6), Some((|| ibig!(65 base 6), || ibig!(-65 base 6)))),
    ("_66 base 6", None, || ubig!(_66 base 6), None),
    ("66 base 6", None, || ubig!(66 base 6), None),
    ("_331 base 6", Some("7f"), || ubig!(_331 base 6), Some((|| ibig!(_331 base 6), || ibig!(-_331 base 6)))),
    ("_411412 base 6", Some("8000"), || ubig!(_411412 base 6), None),
    ("_2450453 base 6", Some("20001"), || ubig!(_2450453 base 6), None),
    ("_3540212035411 base 6", Some("1ffffffff"), || ubig!(_3540212035411 base 6), Some((|| ibig!(_3540212035411 base 6), || ibig!(-_3540212035411 base 6)))),
    ("_2434351452535534544 base 6", Some("1000000000000"), || ubig!(_2434351452535534544 base 6), None),
    ("_3520522010102100444244425 base 6", Some("10000000000000001"), || ubig!(_3520522010102100444244425 base 6), None),
    ("_5245102433414021100531325253103 base 6", Some("ffffffffffffffffffff"), || ubig!(_5245102433414021100531325253103 base 6), Some((|| ibig!(_5245102433414021100531325253103 base 6), || ibig!(-_5245102433414021100531325253103 base 6)))),
    ("_11403054334130343124055002201401544144 base 6", Some("1000000000000000000000000"), || ubig!(_11403054334130343124055002201401544144 base 6), None),
    ("_11324454543055553250455021551551121442554522203133 base 6", Some("80000000000000000000000000000001"), || ubig!(_11324454543055553250455021551551121442554522203133 base 6), None),
    ("_45523104543021325211141241350424110013325534234014403303531223 base 6", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_45523104543021325211141241350424110013325534234014403303531223 base 6), Some((|| ibig!(_45523104543021325211141241350424110013325534234014403303531223 base 6), || ibig!(-_45523104543021325211141241350424110013325534234014403303531223 base 6)))),
    ("_310503251100531011315010134155131542350301310035104345400013243452501132403430315320140313343525012 base 6", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_310503251100531011315010134155131542350301310035104345400013243452501132403430315320140313343525012 base 6), None),
    ("_4050121214331135443101041402411435205415250352030311124300522204111015331352544414310252050525332220205132355320324311151505 base 6", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_4050121214331135443101041402411435205415250352030311124300522204111015331352544414310252050525332220205132355320324311151505 base 6), None),
    ("_340242252223005344403400435445531402055124450521550512234554012135140024241040245355040 base 6", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_340242252223005344403400435445531402055124450521550512234554012135140024241040245355040 base 6), Some((|| ibig!(_340242252223005344403400435445531402055124450521550512234554012135140024241040245355040 base 6), || ibig!(-_340242252223005344403400435445531402055124450521550512234554012135140024241040245355040 base 6)))),
    ("_1000000000000 base 6", Some("81bf1000"), || ubig!(_1000000000000 base 6), None),
    ("_5555555555555555555555555555555555555555 base 6", Some("a8b8b452291fe820ffffffffff"), || ubig!(_5555555555555555555555555555555555555555 base 6), None),
];
pub static PART13: &[Row] = &[
    ("_100000000000000000000000000000000000000000 base 6", Some("3f45439ecf6bf70c60000000000"), || ubig!(_100000000000000000000000000000000000000000 base 6), Some((|| ibig!(_100000000000000000000000000000000000000000 base 6), || ibig!(-_100000000000000000000000000000000000000000 base 6)))),
    ("_1_0 base 6", None, || ubig!(_1_0 base 6), None),
    ("__1 base 6", None, || ubig!(__1 base 6), None),
    ("1_0 base 6", None, || ubig!(1_0 base 6), Some((|| ibig!(1_0 base 6), || ibig!(-1_0 base 6)))),
    ("_0 base 7", Some("0"), || ubig!(_0 base 7), None),
    ("0 base 7", Some("0"), || ubig!(0 base 7), None),
    ("_1 base 7", Some("1"), || ubig!(_1 base 7), Some((|| ibig!(_1 base 7), || ibig!(-_1 base 7)))),
    ("1 base 7", Some("1"), || ubig!(1 base 7), None),
    ("_3 base 7", Some("3"), || ubig!(_3 base 7), None),
    ("3 base 7", Some("3"), || ubig!(3 base 7), Some((|| ibig!(3 base 7), || ibig!(-3 base 7)))),
    ("_6 base 7", Some("6"), || ubig!(_6 base 7), None),
    ("6 base 7", Some("6"), || ubig!(6 base 7), None),
    ("_7 base 7", None, || ubig!(_7 base 7), Some((|| ibig!(_7 base 7), || ibig!(-_7 base 7)))),
    ("7 base 7", None, || ubig!(7 base 7), None),
    ("_00 base 7", Some("0"), || ubig!(_00 base 7), None),
    ("00 base 7", Some("0"), || ubig!(00 base 7), Some((|| ibig!(00 base 7), || ibig!(-00 base 7)))),
    ("_01 base 7", Some("1"), || ubig!(_01 base 7), None),
    ("01 base 7", Some("1"), || ubig!(01 base 7), None),
    ("_03 base 7", Some("3"), || ubig!(_03 base 7), Some((|| ibig!(_03 base 7), || ibig!(-_03 base 7)))),
    ("03 base 7", Some("3"), || ubig!(03 base 7), None),
    ("_06 base 7", Some("6"), || ubig!(_06 base 7), None),
    ("06 base 7", Some("6"), || ubig!(06 base 7), Some((|| ibig!(06 base 7), || ibig!(-06 base 7)))),
    ("_07 base 7", None, || ubig!(_07 base 7), None),
    ("07 base 7", None, || ubig!(07 base 7), None),
    ("_10 base 7", Some("7"), || ubig!(_10 base 7), Some((|| ibig!(_10 base 7), || ibig!(-_10 base 7)))),
    ("10 base 7", Some("7"), || ubig!(10 base 7), None),
    ("_11 base 7", Some("8"), || ubig!(_11 base 7), None),
    ("11 base 7", Some("8"), || ubig!(11 base 7), Some((|| ibig!(11 base 7), || ibig!(-11 base 7)))),
    ("_13 base 7", Some("a"), || ubig!(_13 base 7), None),
    ("13 base 7", Some("a"), || ubig!(13 base 7), None),
    ("_16 base 7", Some("d"), || ubig!(_16 base 7), Some((|| ibig!(_16 base 7), || ibig!(-_16 base 7)))),
    ("16 base 7", Some("d"), || ubig!(16 base 7), None),
    ("_17 base 7", None, || ubig!(_17 base 7), None),
    ("17 base 7", None, || ubig!(17 base 7), Some((|| ibig!(17 base 7), || ibig!(-17 base 7)))),
    ("_30 base 7", Some("15"), || ubig!(_30 base 7), None),
    ("30 base 7", Some("15"), || ubig!(30 base 7), None),
    ("_31 base 7", Some("16"), || ubig!(_31 base 7), Some((|| ibig!(_31 base 7), || ibig!(-_31 base 7)))),
    ("31 base 7", Some("16"), || ubig!(31 base 7), None),
    ("_33 base 7", Some("18"), || ubig!(_33 base 7), None),
    ("33 base 7", Some("18"), || ubig!(33 base 7), Some((|| ibig!(33 base 7), || ibig!(-33 base 7)))),
    ("_36 base 7", Some("1b"), || ubig!(_36 base 7), None),
    ("36 base 7", Some("1b"), || ubig!(36 base 7), None),
    ("_37 base 7", None, || ubig!(_37 base 7), Some((|| ibig!(_37 base 7), || ibig!(-_37 base 7)))),
    ("37 base 7", None, || ubig!(37 base 7), None),
    ("_60 base 7", Some("2a"), || ubig!(_60 base 7), None),
    ("60 base 7", Some("2a"), || ubig!(60 base 7), Some((|| ibig!(60 base 7), || ibig!(-60 base 7)))),
    ("_61 base 7", Some("2b"), || ubig!(_61 base 7), None),
    ("61 base 7", Some("2b"), || ubig!(61 base 7), None),
    ("_63 base 7", Some("2d"), || ubig!(_63 base 7), Some((|| ibig!(_63 base 7), || ibig!(-_63 base 7)))),
    ("63 base 7", Some("2d"), || ubig!(63 base 7), None),
    ("_66 base 7", Some("30"), || ubig!(_66 base 7), None),
    ("66 base 7", Some("30"), || ubig!(66 base 7), Some((|| ibig!(66 base 7), || ibig!(-66 base 7)))),
    ("_67 base 7", None, || ubig!(_67 base 7), None),
    ("67 base 7", None, || ubig!(67 base 7), None),
    ("_70 base 7", None, || ubig!(_70 base 7), Some((|| ibig!(_70 base 7), || ibig!(-_70 base 7)))),
    ("70 base 7", None, || ubig!(70 base 7), None),
    ("_71 base 7", None, || ubig!(_71 base 7), None),
    ("71 base 7", None, || ubig!(71 base 7), Some((|| ibig!(71 base 7), || ibig!(-71 base 7)))),
    ("_73 base 7", None, || ubig!(_73 base 7), None),
    ("73 base 7", None, || ubig!(73 base 7), None),
    ("_76 base 7", None, || ubig!(_76 base 7), Some((|| ibig!(_76 base 7), || ibig!(-_76 base 7)))),
    ("76 base 7", None, || ubig!(76 base 7), None),
    ("_77 base 7", None, || ubig!(_77 base 7), None),
    ("77 base 7", None, || ubig!(77 base 7), Some((|| ibig!(77 base 7), || ibig!(-77 base 7)))),
    ("_241 base 7", Some("7f"), || ubig!(_241 base 7), None),
    ("_164351 base 7", Some("8000"), || ubig!(_164351 base 7), None),
    ("_1054065 base 7", Some("20001"), || ubig!(_1054065 base 7), Some((|| ibig!(_1054065 base 7), || ibig!(-_1054065 base 7)))),
    ("_422603145040 base 7", Some("1ffffffff"), || ubig!(_422603145040 base 7), None),
    ("_113200616214553321 base 7", Some("1000000000000"), || ubig!(_113200616214553321 base 7), None),
    ("_45012021522523134134603 base 7", Some("10000000000000001"), || ubig!(_45012021522523134134603 base 7), Some((|| ibig!(_45012021522523134134603 base 7), || ibig!(-_45012021522523134134603 base 7)))),
    ("_24253152245551365624443563563 base 7", Some("ffffffffffffffffffff"), || ubig!(_24253152245551365624443563563 base 7), None),
    ("_13151051145124426263114562144355341 base 7", Some("1000000000000000000000000"), || ubig!(_13151051145124426263114562144355341 base 7), None),
    ("_1406241064412313155000336513424310163013142503 base 7", Some("80000000000000000000000000000001"), || ubig!(_1406241064412313155000336513424310163013142503 base 7), Some((|| ibig!(_1406241064412313155000336513424310163013142503 base 7), || ibig!(-_1406241064412313155000336513424310163013142503 base 7)))),
    ("_662313122254561664144230006644464633403520441042540534611 base 7", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_662313122254561664144230006644464633403520441042540534611 base 7), None),
    ("_5025165211262611306336361333504421064511062363204066403424464106430553254544410111601410511 base 7", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_5025165211262611306336361333504421064511062363204066403424464106430553254544410111601410511 base 7), None),
    ("_654656002635401134342501362525456450562215113521322066264242251112444522455414565464653516020432336310554153543445 base 7", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_654656002635401134342501362525456450562215113521322066264242251112444522455414565464653516020432336310554153543445 base 7), Some((|| ibig!(_654656002635401134342501362525456450562215113521322066264242251112444522455414565464653516020432336310554153543445 base 7), || ibig!(-_654656002635401134342501362525456450562215113521322066264242251112444522455414565464653516020432336310554153543445 base 7)))),
    ("_52036064515044556422202011410414501553450045333512335464605663335306330414634613 base 7", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_52036064515044556422202011410414501553450045333512335464605663335306330414634613 base 7), None),
    ("_1000000000000 base 7", Some("339014821"), || ubig!(_1000000000000 base 7), None),
    ("_6666666666666666666666666666666666666666 base 7", Some("139e862f1509ba9c74345f78771c0"), || ubig!(_6666666666666666666666666666666666666666 base 7), Some((|| ibig!(_6666666666666666666666666666666666666666 base 7), || ibig!(-_6666666666666666666666666666666666666666 base 7)))),
    ("_100000000000000000000000000000000000000000 base 7", Some("8955ab4993441a472d6e9c4b41c47"), || ubig!(_100000000000000000000000000000000000000000 base 7), None),
    ("_1_0 base 7", None, || ubig!(_1_0 base 7), None),
    ("__1 base 7", None, || ubig!(__1 base 7), Some((|| ibig!(__1 base 7), || ibig!(-__1 base 7)))),
    ("1_0 base 7", None, || ubig!(1_0 base 7), None),
    ("_0 base 8", Some("0"), || ubig!(_0 base 8), None),
    ("0 base 8", Some("0"), || ubig!(0 base 8), Some((|| ibig!(0 base 8), || ibig!(-0 base 8)))),
    ("_1 base 8", Some("1"), || ubig!(_1 base 8), None),
    ("1 base 8", Some("1"), || ubig!(1 base 8), None),
    ("_4 base 8", Some("4"), || ubig!(_4 base 8), Some((|| ibig!(_4 base 8), || ibig!(-_4 base 8)))),
    ("4 base 8", Some("4"), || ubig!(4 base 8), None),
    ("_7 base 8", Some("7"), || ubig!(_7 base 8), None),
    ("7 base 8", Some("7"), || ubig!(7 base 8), Some((|| ibig!(7 base 8), || ibig!(-7 base 8)))),
    ("_8 base 8", None, || ubig!(_8 base 8), None),
    ("8 base 8", None, || ubig!(8 base 8), None),
    ("_00 base 8", Some("0"), || ubig!(_00 base 8), Some((|| ibig!(_00 base 8), || ibig!(-_00 base 8)))),
    ("00 base 8", Some("0"), || ubig!(00 base 8), None),
    ("_01 base 8", Some("1"), || ubig!(_01 base 8), None),
    ("01 base 8", Some("1"), || ubig!(01 base 8), Some((|| ibig!(01 base 8), || ibig!(-01 base 8)))),
    ("_04 base 8", Some("4"), || ubig!(_04 base 8), None),
    ("04 base 8", Some("4"), || ubig!(04 base 8), None),
    ("_07 base 8", Some("7"), || ubig!(_07 base 8), Some((|| ibig!(_07 base 8), || ibig!(-_07 base 8)))),
    ("07 base 8", Some("7"), || ubig!(07 base 8), None),
    ("_08 base 8", None, || ubig!(_08 base 8), None),
    ("08 base 8", None, || ubig!(08 base 8), Some((|| ibig!(08 base 8), || ibig!(-08 base 8)))),
    ("_10 base 8", Some("8"), || ubig!(_10 base 8), None),
    ("10 base 8", Some("8"), || ubig!(10 base 8), None),
    ("_11 base 8", Some("9"), || ubig!(_11 base 8), Some((|| ibig!(_11 base 8), || ibig!(-_11 base 8)))),
    ("11 base 8", Some("9"), || ubig!(11 base 8), None),
    ("_14 base 8", Some("c"), || ubig!(_14 base 8), None),
    ("14 base 8", Some("c"), || ubig!(14 base 8), Some((|| ibig!(14 base 8), || ibig!(-14 base 8)))),
    ("_17 base 8", Some("f"), || ubig!(_17 base 8), None),
    ("17 base 8", Some("f"), || ubig!(17 base 8), None),
    ("_18 base 8", None, || ubig!(_18 base 8), Some((|| ibig!(_18 base 8), || ibig!(-_18 base 8)))),
    ("18 base 8", None, || ubig!(18 base 8), None),
    ("_40 base 8", Some("20"), || ubig!(_40 base 8), None),
    ("40 base 8", Some("20"), || ubig!(40 base 8), Some((|| ibig!(40 base 8), || ibig!(-40 base 8)))),
    ("_41 base 8", Some("21"), || ubig!(_41 base 8), None),
    ("41 base 8", Some("21"), || ubig!(41 base 8), None),
    ("_44 base 8", Some("24"), || ubig!(_44 base 8), Some((|| ibig!(_44 base 8), || ibig!(-_44 base 8)))),
    ("44 base 8", Some("24"), || ubig!(44 base 8), None),
    ("_47 base 8", Some("27"), || ubig!(_47 base 8), None),
    ("47 base 8", Some("27"), || ubig!(47 base 8), Some((|| ibig!(47 base 8), || ibig!(-47 base 8)))),
    ("_48 base 8", None, || ubig!(_48 base 8), None),
    ("48 base 8", None, || ubig!(48 base 8), None),
    ("_70 base 8", Some("38"), || ubig!(_70 base 8), Some((|| ibig!(_70 base 8), || ibig!(-_70 base 8)))),
    ("70 base 8", Some("38"), || ubig!(70 base 8), None),
    ("_71 base 8", Some("39"), || ubig!(_71 base 8), None),
    ("71 base 8", Some("39"), || ubig!(71 base 8), Some((|| ibig!(71 base 8), || ibig!(-71 base 8)))),
    ("_74 base 8", Some("3c"), || ubig!(_74 base 8), None),
    ("74 base 8", Some("3c"), || ubig!(74 base 8), None),
    ("_77 base 8", Some("3f"), || ubig!(_77 base 8), Some((|| ibig!(_77 base 8), || ibig!(-_77 base 8)))),
    ("77 base 8", Some("3f"), || ubig!(77 base 8), None),
    ("_78 base 8", None, || ubig!(_78 base 8), None),
    ("78 base 8", None, || ubig!(78 base 8), Some((|| ibig!(78 base 8), || ibig!(-78 base 8)))),
    ("_80 base 8", None, || ubig!(_80 base 8), None),
    ("80 base 8", None, || ubig!(80 base 8), None),
    ("_81 base 8", None, || ubig!(_81 base 8), Some((|| ibig!(_81 base 8), || ibig!(-_81 base 8)))),
    ("81 base 8", None, || ubig!(81 base 8), None),
    ("_84 base 8", None, || ubig!(_84 base 8), None),
    ("84 base 8", None, || ubig!(84 base 8), Some((|| ibig!(84 base 8), || ibig!(-84 base 8)))),
    ("_87 base 8", None, || ubig!(_87 base 8), None),
    ("87 base 8", None, || ubig!(87 base 8), None),
    ("_88 base 8", None, || ubig!(_88 base 8), Some((|| ibig!(_88 base 8), || ibig!(-_88 base 8)))),
    ("88 base 8", None, || ubig!(88 base 8), None),
    ("_177 base 8", Some("7f"), || ubig!(_177 base 8), None),
    ("_100000 base 8", Some("8000"), || ubig!(_100000 base 8), Some((|| ibig!(_100000 base 8), || ibig!(-_100000 base 8)))),
    ("_400001 base 8", Some("20001"), || ubig!(_400001 base 8), None),
    ("_77777777777 base 8", Some("1ffffffff"), || ubig!(_77777777777 base 8), None),
    ("_10000000000000000 base 8", Some("1000000000000"), || ubig!(_10000000000000000 base 8), Some((|| ibig!(_10000000000000000 base 8), || ibig!(-_10000000000000000 base 8)))),
    ("_2000000000000000000001 base 8", Some("10000000000000001"), || ubig!(_2000000000000000000001 base 8), None),
    ("_377777777777777777777777777 base 8", Some("ffffffffffffffffffff"), || ubig!(_377777777777777777777777777 base 8), None),
];
pub static PART14: &[Row] = &[
    ("_100000000000000000000000000000000 base 8", Some("1000000000000000000000000"), || ubig!(_100000000000000000000000000000000 base 8), Some((|| ibig!(_100000000000000000000000000000000 base 8), || ibig!(-_100000000000000000000000000000000 base 8)))),
    ("_2000000000000000000000000000000000000000001 base 8", Some("80000000000000000000000000000001"), || ubig!(_2000000000000000000000000000000000000000001 base 8), None),
    ("_177777777777777777777777777777777777777777777777777777 base 8", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_177777777777777777777777777777777777777777777777777777 base 8), None),
    ("_10000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 8", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_10000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 8), Some((|| ibig!(_10000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 8), || ibig!(-_10000000000000000000000000000000000000000000000000000000000000000000000000000000000000 base 8)))),
    ("_40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001 base 8", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_40000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001 base 8), None),
    ("_443212636115274675703766713523035452062040000000000000000000000000000000000 base 8", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_443212636115274675703766713523035452062040000000000000000000000000000000000 base 8), None),
    ("_1000000000000 base 8", Some("1000000000"), || ubig!(_1000000000000 base 8), Some((|| ibig!(_1000000000000 base 8), || ibig!(-_1000000000000 base 8)))),
    ("_7777777777777777777777777777777777777777 base 8", Some("ffffffffffffffffffffffffffffff"), || ubig!(_7777777777777777777777777777777777777777 base 8), None),
    ("_100000000000000000000000000000000000000000 base 8", Some("8000000000000000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 8), None),
    ("_1_0 base 8", None, || ubig!(_1_0 base 8), Some((|| ibig!(_1_0 base 8), || ibig!(-_1_0 base 8)))),
    ("__1 base 8", None, || ubig!(__1 base 8), None),
    ("1_0 base 8", None, || ubig!(1_0 base 8), None),
    ("_0 base 9", Some("0"), || ubig!(_0 base 9), Some((|| ibig!(_0 base 9), || ibig!(-_0 base 9)))),
    ("0 base 9", Some("0"), || ubig!(0 base 9), None),
    ("_1 base 9", Some("1"), || ubig!(_1 base 9), None),
    ("1 base 9", Some("1"), || ubig!(1 base 9), Some((|| ibig!(1 base 9), || ibig!(-1 base 9)))),
    ("_4 base 9", Some("4"), || ubig!(_4 base 9), None),
    ("4 base 9", Some("4"), || ubig!(4 base 9), None),
    ("_8 base 9", Some("8"), || ubig!(_8 base 9), Some((|| ibig!(_8 base 9), || ibig!(-_8 base 9)))),
    ("8 base 9", Some("8"), || ubig!(8 base 9), None),
    ("_9 base 9", None, || ubig!(_9 base 9), None),
    ("9 base 9", None, || ubig!(9 base 9), Some((|| ibig!(9 base 9), || ibig!(-9 base 9)))),
    ("_00 base 9", Some("0"), || ubig!(_00 base 9), None),
    ("00 base 9", Some("0"), || ubig!(00 base 9), None),
    ("_01 base 9", Some("1"), || ubig!(_01 base 9), Some((|| ibig!(_01 base 9), || ibig!(-_01 base 9)))),
    ("01 base 9", Some("1"), || ubig!(01 base 9), None),
    ("_04 base 9", Some("4"), || ubig!(_04 base 9), None),
    ("04 base 9", Some("4"), || ubig!(04 base 9), Some((|| ibig!(04 base 9), || ibig!(-04 base 9)))),
    ("_08 base 9", Some("8"), || ubig!(_08 base 9), None),
    ("08 base 9", Some("8"), || ubig!(08 base 9), None),
    ("_09 base 9", None, || ubig!(_09 base 9), Some((|| ibig!(_09 base 9), || ibig!(-_09 base 9)))),
    ("09 base 9", None, || ubig!(09 base 9), None),
    ("_10 base 9", Some("9"), || ubig!(_10 base 9), None),
    ("10 base 9", Some("9"), || ubig!(10 base 9), Some((|| ibig!(10 base 9), || ibig!(-10 base 9)))),
    ("_11 base 9", Some("a"), || ubig!(_11 base 9), None),
    ("11 base 9", Some("a"), || ubig!(11 base 9), None),
    ("_14 base 9", Some("d"), || ubig!(_14 base 9), Some((|| ibig!(_14 base 9), || ibig!(-_14 base 9)))),
    ("14 base 9", Some("d"), || ubig!(14 base 9), None),
    ("_18 base 9", Some("11"), || ubig!(_18 base 9), None),
    ("18 base 9", Some("11"), || ubig!(18 base 9), Some((|| ibig!(18 base 9), || ibig!(-18 base 9)))),
    ("_19 base 9", None, || ubig!(_19 base 9), None),
    ("19 base 9", None, || ubig!(19 base 9), None),
    ("_40 base 9", Some("24"), || ubig!(_40 base 9), Some((|| ibig!(_40 base 9), || ibig!(-_40 base 9)))),
    ("40 base 9", Some("24"), || ubig!(40 base 9), None),
    ("_41 base 9", Some("25"), || ubig!(_41 base 9), None),
    ("41 base 9", Some("25"), || ubig!(41 base 9), Some((|| ibig!(41 base 9), || ibig!(-41 base 9)))),
    ("_44 base 9", Some("28"), || ubig!(_44 base 9), None),
    ("44 base 9", Some("28"), || ubig!(44 base 9), None),
    ("_48 base 9", Some("2c"), || ubig!(_48 base 9), Some((|| ibig!(_48 base 9), || ibig!(-_48 base 9)))),
    ("48 base 9", Some("2c"), || ubig!(48 base 9), None),
    ("_49 base 9", None, || ubig!(_49 base 9), None),
    ("49 base 9", None, || ubig!(49 base 9), Some((|| ibig!(49 base 9), || ibig!(-49 base 9)))),
    ("_80 base 9", Some("48"), || ubig!(_80 base 9), None),
    ("80 base 9", Some("48"), || ubig!(80 base 9), None),
    ("_81 base 9", Some("49"), || ubig!(_81 base 9), Some((|| ibig!(_81 base 9), || ibig!(-_81 base 9)))),
    ("81 base 9", Some("49"), || ubig!(81 base 9), None),
    ("_84 base 9", Some("4c"), || ubig!(_84 base 9), None),
    ("84 base 9", Some("4c"), || ubig!(84 base 9), Some((|| ibig!(84 base 9), || ibig!(-84 base 9)))),
    ("_88 base 9", Some("50"), || ubig!(_88 base 9), None),
    ("88 base 9", Some("50"), || ubig!(88 base 9), None),
    ("_89 base 9", None, || ubig!(_89 base 9), Some((|| ibig!(_89 base 9), || ibig!(-_89 base 9)))),
    ("89 base 9", None, || ubig!(89 base 9), None),
    ("_90 base 9", None, || ubig!(_90 base 9), None),
    ("90 base 9", None, || ubig!(90 base 9), Some((|| ibig!(90 base 9), || ibig!(-90 base 9)))),
    ("_91 base 9", None, || ubig!(_91 base 9), None),
    ("91 base 9", None, || ubig!(91 base 9), None),
    ("_94 base 9", None, || ubig!(_94 base 9), Some((|| ibig!(_94 base 9), || ibig!(-_94 base 9)))),
    ("94 base 9", None, || ubig!(94 base 9), None),
    ("_98 base 9", None, || ubig!(_98 base 9), None),
    ("98 base 9", None, || ubig!(98 base 9), Some((|| ibig!(98 base 9), || ibig!(-98 base 9)))),
    ("_99 base 9", None, || ubig!(_99 base 9), None),
    ("99 base 9", None, || ubig!(99 base 9), None),
    ("_151 base 9", Some("7f"), || ubig!(_151 base 9), Some((|| ibig!(_151 base 9), || ibig!(-_151 base 9)))),
    ("_48848 base 9", Some("8000"), || ubig!(_48848 base 9), None),
    ("_218716 base 9", Some("20001"), || ubig!(_218716 base 9), None),
    ("_24148426017 base 9", Some("1ffffffff"), || ubig!(_24148426017 base 9), Some((|| ibig!(_24148426017 base 9), || ibig!(-_24148426017 base 9)))),
    ("_1326552102342121 base 9", Some("1000000000000"), || ubig!(_1326552102342121 base 9), None),
    ("_145808576354216723758 base 9", Some("10000000000000001"), || ubig!(_145808576354216723758 base 9), None),
    ("_16135528817827251574573143 base 9", Some("ffffffffffffffffffff"), || ubig!(_16135528817827251574573143 base 9), Some((|| ibig!(_16135528817827251574573143 base 9), || ibig!(-_16135528817827251574573143 base 9)))),
    ("_1773432711218556365148164088641 base 9", Some("1000000000000000000000000"), || ubig!(_1773432711218556365148164088641 base 9), None),
    ("_11321261117012076573587122018656546120263 base 9", Some("80000000000000000000000000000001"), || ubig!(_11321261117012076573587122018656546120263 base 9), None),
    ("_274625423545657336654882752863702444641527178338066 base 9", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_274625423545657336654882752863702444641527178338066 base 9), Some((|| ibig!(_274625423545657336654882752863702444641527178338066 base 9), || ibig!(-_274625423545657336654882752863702444641527178338066 base 9)))),
    ("_257576588574372280028407474818655823472561810101716783366114554274374826654534338 base 9", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_257576588574372280028407474818655823472561810101716783366114554274374826654534338 base 9), None),
    ("_80333511162457835787465752256707062177880730630584836445206463646146851851141787404651380056456470085 base 9", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_80333511162457835787465752256707062177880730630584836445206463646146851851141787404651380056456470085 base 9), None),
    ("_48047578424885001610012133164355481145848331765707520045042447643028356 base 9", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_48047578424885001610012133164355481145848331765707520045042447643028356 base 9), Some((|| ibig!(_48047578424885001610012133164355481145848331765707520045042447643028356 base 9), || ibig!(-_48047578424885001610012133164355481145848331765707520045042447643028356 base 9)))),
    ("_1000000000000 base 9", Some("41c21cb8e1"), || ubig!(_1000000000000 base 9), None),
    ("_8888888888888888888888888888888888888888 base 9", Some("6f32f1ef8b18a2bc3cea59789c79d440"), || ubig!(_8888888888888888888888888888888888888888 base 9), None),
    ("_100000000000000000000000000000000000000000 base 9", Some("3e8ca816be3ddb89e243d253d80487649"), || ubig!(_100000000000000000000000000000000000000000 base 9), Some((|| ibig!(_100000000000000000000000000000000000000000 base 9), || ibig!(-_100000000000000000000000000000000000000000 base 9)))),
    ("_1_0 base 9", None, || ubig!(_1_0 base 9), None),
    ("__1 base 9", None, || ubig!(__1 base 9), None),
    ("1_0 base 9", None, || ubig!(1_0 base 9), Some((|| ibig!(1_0 base 9), || ibig!(-1_0 base 9)))),
    ("_0 base 10", Some("0"), || ubig!(_0 base 10), None),
    ("0 base 10", Some("0"), || ubig!(0 base 10), None),
    ("_1 base 10", Some("1"), || ubig!(_1 base 10), Some((|| ibig!(_1 base 10), || ibig!(-_1 base 10)))),
    ("1 base 10", Some("1"), || ubig!(1 base 10), None),
    ("_5 base 10", Some("5"), || ubig!(_5 base 10), None),
    ("5 base 10", Some("5"), || ubig!(5 base 10), Some((|| ibig!(5 base 10), || ibig!(-5 base 10)))),
    ("_9 base 10", Some("9"), || ubig!(_9 base 10), None),
    ("9 base 10", Some("9"), || ubig!(9 base 10), None),
    ("_a base 10", None, || ubig!(_a base 10), Some((|| ibig!(_a base 10), || ibig!(-_a base 10)))),
    ("a base 10", None, || ubig!(a base 10), None),
    ("_00 base 10", Some("0"), || ubig!(_00 base 10), None),
    ("00 base 10", Some("0"), || ubig!(00 base 10), Some((|| ibig!(00 base 10), || ibig!(-00 base 10)))),
    ("_01 base 10", Some("1"), || ubig!(_01 base 10), None),
    ("01 base 10", Some("1"), || ubig!(01 base 10), None),
    ("_05 base 10", Some("5"), || ubig!(_05 base 10), Some((|| ibig!(_05 base 10), || ibig!(-_05 base 10)))),
    ("05 base 10", Some("5"), || ubig!(05 base 10), None),
    ("_09 base 10", Some("9"), || ubig!(_09 base 10), None),
    ("09 base 10", Some("9"), || ubig!(09 base 10), Some((|| ibig!(09 base 10), || ibig!(-09 base 10)))),
    ("_0a base 10", None, || ubig!(_0a base 10), None),
    ("_10 base 10", Some("a"), || ubig!(_10 base 10), None),
    ("10 base 10", Some("a"), || ubig!(10 base 10), Some((|| ibig!(10 base 10), || ibig!(-10 base 10)))),
    ("_11 base 10", Some("b"), || ubig!(_11 base 10), None),
    ("11 base 10", Some("b"), || ubig!(11 base 10), None),
    ("_15 base 10", Some("f"), || ubig!(_15 base 10), Some((|| ibig!(_15 base 10), || ibig!(-_15 base 10)))),
    ("15 base 10", Some("f"), || ubig!(15 base 10), None),
    ("_19 base 10", Some("13"), || ubig!(_19 base 10), None),
    ("19 base 10", Some("13"), || ubig!(19 base 10), Some((|| ibig!(19 base 10), || ibig!(-19 base 10)))),
    ("_1a base 10", None, || ubig!(_1a base 10), None),
    ("_50 base 10", Some("32"), || ubig!(_50 base 10), None),
    ("50 base 10", Some("32"), || ubig!(50 base 10), Some((|| ibig!(50 base 10), || ibig!(-50 base 10)))),
    ("_51 base 10", Some("33"), || ubig!(_51 base 10), None),
    ("51 base 10", Some("33"), || ubig!(51 base 10), None),
    ("_55 base 10", Some("37"), || ubig!(_55 base 10), Some((|| ibig!(_55 base 10), || ibig!(-_55 base 10)))),
    ("55 base 10", Some("37"), || ubig!(55 base 10), None),
    ("_59 base 10", Some("3b"), || ubig!(_59 base 10), None),
    ("59 base 10", Some("3b"), || ubig!(59 base 10), Some((|| ibig!(59 base 10), || ibig!(-59 base 10)))),
    ("_5a base 10", None, || ubig!(_5a base 10), None),
    ("_90 base 10", Some("5a"), || ubig!(_90 base 10), None),
    ("90 base 10", Some("5a"), || ubig!(90 base 10), Some((|| ibig!(90 base 10), || ibig!(-90 base 10)))),
    ("_91 base 10", Some("5b"), || ubig!(_91 base 10), None),
    ("91 base 10", Some("5b"), || ubig!(91 base 10), None),
    ("_95 base 10", Some("5f"), || ubig!(_95 base 10), Some((|| ibig!(_95 base 10), || ibig!(-_95 base 10)))),
    ("95 base 10", Some("5f"), || ubig!(95 base 10), None),
    ("_99 base 10", Some("63"), || ubig!(_99 base 10), None),
    ("99 base 10", Some("63"), || ubig!(99 base 10), Some((|| ibig!(99 base 10), || ibig!(-99 base 10)))),
    ("_9a base 10", None, || ubig!(_9a base 10), None),
    ("_a0 base 10", None, || ubig!(_a0 base 10), None),
    ("a0 base 10", None, || ubig!(a0 base 10), Some((|| ibig!(a0 base 10), || ibig!(-a0 base 10)))),
    ("_a1 base 10", None, || ubig!(_a1 base 10), None),
    ("a1 base 10", None, || ubig!(a1 base 10), None),
    ("_a5 base 10", None, || ubig!(_a5 base 10), Some((|| ibig!(_a5 base 10), || ibig!(-_a5 base 10)))),
    ("a5 base 10", None, || ubig!(a5 base 10), None),
    ("_a9 base 10", None, || ubig!(_a9 base 10), None),
    ("a9 base 10", None, || ubig!(a9 base 10), Some((|| ibig!(a9 base 10), || ibig!(-a9 base 10)))),
    ("_aa base 10", None, || ubig!(_aa base 10), None),
    ("aa base 10", None, || ubig!(aa base 10), None),
    ("_000 base 10", Some("0"), || ubig!(_000 base 10), Some((|| ibig!(_000 base 10), || ibig!(-_000 base 10)))),
    ("000 base 10", Some("0"), || ubig!(000 base 10), None),
    ("_001 base 10", Some("1"), || ubig!(_001 base 10), None),
];
pub static PART15: &[Row] = &[
    ("001 base 10", Some("1"), || ubig!(001 base 10), Some((|| ibig!(001 base 10), || ibig!(-001 base 10)))),
    ("_005 base 10", Some("5"), || ubig!(_005 base 10), None),
    ("005 base 10", Some("5"), || ubig!(005 base 10), None),
    ("_009 base 10", Some("9"), || ubig!(_009 base 10), Some((|| ibig!(_009 base 10), || ibig!(-_009 base 10)))),
    ("009 base 10", Some("9"), || ubig!(009 base 10), None),
    ("_00a base 10", None, || ubig!(_00a base 10), None),
    ("_010 base 10", Some("a"), || ubig!(_010 base 10), Some((|| ibig!(_010 base 10), || ibig!(-_010 base 10)))),
    ("010 base 10", Some("a"), || ubig!(010 base 10), None),
    ("_011 base 10", Some("b"), || ubig!(_011 base 10), None),
    ("011 base 10", Some("b"), || ubig!(011 base 10), Some((|| ibig!(011 base 10), || ibig!(-011 base 10)))),
    ("_015 base 10", Some("f"), || ubig!(_015 base 10), None),
    ("015 base 10", Some("f"), || ubig!(015 base 10), None),
    ("_019 base 10", Some("13"), || ubig!(_019 base 10), Some((|| ibig!(_019 base 10), || ibig!(-_019 base 10)))),
    ("019 base 10", Some("13"), || ubig!(019 base 10), None),
    ("_01a base 10", None, || ubig!(_01a base 10), None),
    ("_050 base 10", Some("32"), || ubig!(_050 base 10), Some((|| ibig!(_050 base 10), || ibig!(-_050 base 10)))),
    ("050 base 10", Some("32"), || ubig!(050 base 10), None),
    ("_051 base 10", Some("33"), || ubig!(_051 base 10), None),
    ("051 base 10", Some("33"), || ubig!(051 base 10), Some((|| ibig!(051 base 10), || ibig!(-051 base 10)))),
    ("_055 base 10", Some("37"), || ubig!(_055 base 10), None),
    ("055 base 10", Some("37"), || ubig!(055 base 10), None),
    ("_059 base 10", Some("3b"), || ubig!(_059 base 10), Some((|| ibig!(_059 base 10), || ibig!(-_059 base 10)))),
    ("059 base 10", Some("3b"), || ubig!(059 base 10), None),
    ("_05a base 10", None, || ubig!(_05a base 10), None),
    ("_090 base 10", Some("5a"), || ubig!(_090 base 10), Some((|| ibig!(_090 base 10), || ibig!(-_090 base 10)))),
    ("090 base 10", Some("5a"), || ubig!(090 base 10), None),
    ("_091 base 10", Some("5b"), || ubig!(_091 base 10), None),
    ("091 base 10", Some("5b"), || ubig!(091 base 10), Some((|| ibig!(091 base 10), || ibig!(-091 base 10)))),
    ("_095 base 10", Some("5f"), || ubig!(_095 base 10), None),
    ("095 base 10", Some("5f"), || ubig!(095 base 10), None),
    ("_099 base 10", Some("63"), || ubig!(_099 base 10), Some((|| ibig!(_099 base 10), || ibig!(-_099 base 10)))),
    ("099 base 10", Some("63"), || ubig!(099 base 10), None),
    ("_09a base 10", None, || ubig!(_09a base 10), None),
    ("_0a0 base 10", None, || ubig!(_0a0 base 10), Some((|| ibig!(_0a0 base 10), || ibig!(-_0a0 base 10)))),
    ("_0a1 base 10", None, || ubig!(_0a1 base 10), None),
    ("_0a5 base 10", None, || ubig!(_0a5 base 10), None),
    ("_0a9 base 10", None, || ubig!(_0a9 base 10), Some((|| ibig!(_0a9 base 10), || ibig!(-_0a9 base 10)))),
    ("_0aa base 10", None, || ubig!(_0aa base 10), None),
    ("_100 base 10", Some("64"), || ubig!(_100 base 10), None),
    ("100 base 10", Some("64"), || ubig!(100 base 10), Some((|| ibig!(100 base 10), || ibig!(-100 base 10)))),
    ("_101 base 10", Some("65"), || ubig!(_101 base 10), None),
    ("101 base 10", Some("65"), || ubig!(101 base 10), None),
    ("_105 base 10", Some("69"), || ubig!(_105 base 10), Some((|| ibig!(_105 base 10), || ibig!(-_105 base 10)))),
    ("105 base 10", Some("69"), || ubig!(105 base 10), None),
    ("_109 base 10", Some("6d"), || ubig!(_109 base 10), None),
    ("109 base 10", Some("6d"), || ubig!(109 base 10), Some((|| ibig!(109 base 10), || ibig!(-109 base 10)))),
    ("_10a base 10", None, || ubig!(_10a base 10), None),
    ("_110 base 10", Some("6e"), || ubig!(_110 base 10), None),
    ("110 base 10", Some("6e"), || ubig!(110 base 10), Some((|| ibig!(110 base 10), || ibig!(-110 base 10)))),
    ("_111 base 10", Some("6f"), || ubig!(_111 base 10), None),
    ("111 base 10", Some("6f"), || ubig!(111 base 10), None),
    ("_115 base 10", Some("73"), || ubig!(_115 base 10), Some((|| ibig!(_115 base 10), || ibig!(-_115 base 10)))),
    ("115 base 10", Some("73"), || ubig!(115 base 10), None),
    ("_119 base 10", Some("77"), || ubig!(_119 base 10), None),
    ("119 base 10", Some("77"), || ubig!(119 base 10), Some((|| ibig!(119 base 10), || ibig!(-119 base 10)))),
    ("_11a base 10", None, || ubig!(_11a base 10), None),
    ("_150 base 10", Some("96"), || ubig!(_150 base 10), None),
    ("150 base 10", Some("96"), || ubig!(150 base 10), Some((|| ibig!(150 base 10), || ibig!(-150 base 10)))),
    ("_151 base 10", Some("97"), || ubig!(_151 base 10), None),
    ("151 base 10", Some("97"), || ubig!(151 base 10), None),
    ("_155 base 10", Some("9b"), || ubig!(_155 base 10), Some((|| ibig!(_155 base 10), || ibig!(-_155 base 10)))),
    ("155 base 10", Some("9b"), || ubig!(155 base 10), None),
    ("_159 base 10", Some("9f"), || ubig!(_159 base 10), None),
    ("159 base 10", Some("9f"), || ubig!(159 base 10), Some((|| ibig!(159 base 10), || ibig!(-159 base 10)))),
    ("_15a base 10", None, || ubig!(_15a base 10), None),
    ("_190 base 10", Some("be"), || ubig!(_190 base 10), None),
    ("190 base 10", Some("be"), || ubig!(190 base 10), Some((|| ibig!(190 base 10), || ibig!(-190 base 10)))),
    ("_191 base 10", Some("bf"), || ubig!(_191 base 10), None),
    ("191 base 10", Some("bf"), || ubig!(191 base 10), None),
    ("_195 base 10", Some("c3"), || ubig!(_195 base 10), Some((|| ibig!(_195 base 10), || ibig!(-_195 base 10)))),
    ("195 base 10", Some("c3"), || ubig!(195 base 10), None),
    ("_199 base 10", Some("c7"), || ubig!(_199 base 10), None),
    ("199 base 10", Some("c7"), || ubig!(199 base 10), Some((|| ibig!(199 base 10), || ibig!(-199 base 10)))),
    ("_19a base 10", None, || ubig!(_19a base 10), None),
    ("_1a0 base 10", None, || ubig!(_1a0 base 10), None),
    ("_1a1 base 10", None, || ubig!(_1a1 base 10), Some((|| ibig!(_1a1 base 10), || ibig!(-_1a1 base 10)))),
    ("_1a5 base 10", None, || ubig!(_1a5 base 10), None),
    ("_1a9 base 10", None, || ubig!(_1a9 base 10), None),
    ("_1aa base 10", None, || ubig!(_1aa base 10), Some((|| ibig!(_1aa base 10), || ibig!(-_1aa base 10)))),
    ("_500 base 10", Some("1f4"), || ubig!(_500 base 10), None),
    ("500 base 10", Some("1f4"), || ubig!(500 base 10), None),
    ("_501 base 10", Some("1f5"), || ubig!(_501 base 10), Some((|| ibig!(_501 base 10), || ibig!(-_501 base 10)))),
    ("501 base 10", Some("1f5"), || ubig!(501 base 10), None),
    ("_505 base 10", Some("1f9"), || ubig!(_505 base 10), None),
    ("505 base 10", Some("1f9"), || ubig!(505 base 10), Some((|| ibig!(505 base 10), || ibig!(-505 base 10)))),
    ("_509 base 10", Some("1fd"), || ubig!(_509 base 10), None),
    ("509 base 10", Some("1fd"), || ubig!(509 base 10), None),
    ("_50a base 10", None, || ubig!(_50a base 10), Some((|| ibig!(_50a base 10), || ibig!(-_50a base 10)))),
    ("_510 base 10", Some("1fe"), || ubig!(_510 base 10), None),
    ("510 base 10", Some("1fe"), || ubig!(510 base 10), None),
    ("_511 base 10", Some("1ff"), || ubig!(_511 base 10), Some((|| ibig!(_511 base 10), || ibig!(-_511 base 10)))),
    ("511 base 10", Some("1ff"), || ubig!(511 base 10), None),
    ("_515 base 10", Some("203"), || ubig!(_515 base 10), None),
    ("515 base 10", Some("203"), || ubig!(515 base 10), Some((|| ibig!(515 base 10), || ibig!(-515 base 10)))),
    ("_519 base 10", Some("207"), || ubig!(_519 base 10), None),
    ("519 base 10", Some("207"), || ubig!(519 base 10), None),
    ("_51a base 10", None, || ubig!(_51a base 10), Some((|| ibig!(_51a base 10), || ibig!(-_51a base 10)))),
    ("_550 base 10", Some("226"), || ubig!(_550 base 10), None),
    ("550 base 10", Some("226"), || ubig!(550 base 10), None),
    ("_551 base 10", Some("227"), || ubig!(_551 base 10), Some((|| ibig!(_551 base 10), || ibig!(-_551 base 10)))),
    ("551 base 10", Some("227"), || ubig!(551 base 10), None),
    ("_555 base 10", Some("22b"), || ubig!(_555 base 10), None),
    ("555 base 10", Some("22b"), || ubig!(555 base 10), Some((|| ibig!(555 base 10), || ibig!(-555 base 10)))),
    ("_559 base 10", Some("22f"), || ubig!(_559 base 10), None),
    ("559 base 10", Some("22f"), || ubig!(559 base 10), None),
    ("_55a base 10", None, || ubig!(_55a base 10), Some((|| ibig!(_55a base 10), || ibig!(-_55a base 10)))),
    ("_590 base 10", Some("24e"), || ubig!(_590 base 10), None),
    ("590 base 10", Some("24e"), || ubig!(590 base 10), None),
    ("_591 base 10", Some("24f"), || ubig!(_591 base 10), Some((|| ibig!(_591 base 10), || ibig!(-_591 base 10)))),
    ("591 base 10", Some("24f"), || ubig!(591 base 10), None),
    ("_595 base 10", Some("253"), || ubig!(_595 base 10), None),
    ("595 base 10", Some("253"), || ubig!(595 base 10), Some((|| ibig!(595 base 10), || ibig!(-595 base 10)))),
    ("_599 base 10", Some("257"), || ubig!(_599 base 10), None),
    ("599 base 10", Some("257"), || ubig!(599 base 10), None),
    ("_59a base 10", None, || ubig!(_59a base 10), Some((|| ibig!(_59a base 10), || ibig!(-_59a base 10)))),
    ("_5a0 base 10", None, || ubig!(_5a0 base 10), None),
    ("_5a1 base 10", None, || ubig!(_5a1 base 10), None),
    ("_5a5 base 10", None, || ubig!(_5a5 base 10), Some((|| ibig!(_5a5 base 10), || ibig!(-_5a5 base 10)))),
    ("_5a9 base 10", None, || ubig!(_5a9 base 10), None),
    ("_5aa base 10", None, || ubig!(_5aa base 10), None),
    ("_900 base 10", Some("384"), || ubig!(_900 base 10), Some((|| ibig!(_900 base 10), || ibig!(-_900 base 10)))),
    ("900 base 10", Some("384"), || ubig!(900 base 10), None),
    ("_901 base 10", Some("385"), || ubig!(_901 base 10), None),
    ("901 base 10", Some("385"), || ubig!(901 base 10), Some((|| ibig!(901 base 10), || ibig!(-901 base 10)))),
    ("_905 base 10", Some("389"), || ubig!(_905 base 10), None),
    ("905 base 10", Some("389"), || ubig!(905 base 10), None),
    ("_909 base 10", Some("38d"), || ubig!(_909 base 10), Some((|| ibig!(_909 base 10), || ibig!(-_909 base 10)))),
    ("909 base 10", Some("38d"), || ubig!(909 base 10), None),
    ("_90a base 10", None, || ubig!(_90a base 10), None),
    ("_910 base 10", Some("38e"), || ubig!(_910 base 10), Some((|| ibig!(_910 base 10), || ibig!(-_910 base 10)))),
    ("910 base 10", Some("38e"), || ubig!(910 base 10), None),
    ("_911 base 10", Some("38f"), || ubig!(_911 base 10), None),
    ("911 base 10", Some("38f"), || ubig!(911 base 10), Some((|| ibig!(911 base 10), || ibig!(-911 base 10)))),
    ("_915 base 10", Some("393"), || ubig!(_915 base 10), None),
    ("915 base 10", Some("393"), || ubig!(915 base 10), None),
    ("_919 base 10", Some("397"), || ubig!(_919 base 10), Some((|| ibig!(_919 base 10), || ibig!(-_919 base 10)))),
    ("919 base 10", Some("397"), || ubig!(919 base 10), None),
    ("_91a base 10", None, || ubig!(_91a base 10), None),
    ("_950 base 10", Some("3b6"), || ubig!(_950 base 10), Some((|| ibig!(_950 base 10), || ibig!(-_950 base 10)))),
    ("950 base 10", Some("3b6"), || ubig!(950 base 10), None),
    ("_951 base 10", Some("3b7"), || ubig!(_951 base 10), None),
    ("951 base 10", Some("3b7"), || ubig!(951 base 10), Some((|| ibig!(951 base 10), || ibig!(-951 base 10)))),
    ("_955 base 10", Some("3bb"), || ubig!(_955 base 10), None),
    ("955 base 10", Some("3bb"), || ubig!(955 base 10), None),
    ("_959 base 10", Some("3bf"), || ubig!(_959 base 10), Some((|| ibig!(_959 base 10), || ibig!(-_959 base 10)))),
    ("959 base 10", Some("3bf"), || ubig!(959 base 10), None),
    ("_95a base 10", None, || ubig!(_95a base 10), None),
    ("_990 base 10", Some("3de"), || ubig!(_990 base 10), Some((|| ibig!(_990 base 10), || ibig!(-_990 base 10)))),
    ("990 base 10", Some("3de"), || ubig!(990 base 10), None),
    ("_991 base 10", Some("3df"), || ubig!(_991 base 10), None),
];
pub static PART16: &[Row] = &[
    ("991 base 10", Some("3df"), || ubig!(991 base 10), Some((|| ibig!(991 base 10), || ibig!(-991 base 10)))),
    ("_995 base 10", Some("3e3"), || ubig!(_995 base 10), None),
    ("995 base 10", Some("3e3"), || ubig!(995 base 10), None),
    ("_999 base 10", Some("3e7"), || ubig!(_999 base 10), Some((|| ibig!(_999 base 10), || ibig!(-_999 base 10)))),
    ("999 base 10", Some("3e7"), || ubig!(999 base 10), None),
    ("_99a base 10", None, || ubig!(_99a base 10), None),
    ("_9a0 base 10", None, || ubig!(_9a0 base 10), Some((|| ibig!(_9a0 base 10), || ibig!(-_9a0 base 10)))),
    ("_9a1 base 10", None, || ubig!(_9a1 base 10), None),
    ("_9a5 base 10", None, || ubig!(_9a5 base 10), None),
    ("_9a9 base 10", None, || ubig!(_9a9 base 10), Some((|| ibig!(_9a9 base 10), || ibig!(-_9a9 base 10)))),
    ("_9aa base 10", None, || ubig!(_9aa base 10), None),
    ("_a00 base 10", None, || ubig!(_a00 base 10), None),
    ("a00 base 10", None, || ubig!(a00 base 10), Some((|| ibig!(a00 base 10), || ibig!(-a00 base 10)))),
    ("_a01 base 10", None, || ubig!(_a01 base 10), None),
    ("a01 base 10", None, || ubig!(a01 base 10), None),
    ("_a05 base 10", None, || ubig!(_a05 base 10), Some((|| ibig!(_a05 base 10), || ibig!(-_a05 base 10)))),
    ("a05 base 10", None, || ubig!(a05 base 10), None),
    ("_a09 base 10", None, || ubig!(_a09 base 10), None),
    ("a09 base 10", None, || ubig!(a09 base 10), Some((|| ibig!(a09 base 10), || ibig!(-a09 base 10)))),
    ("_a0a base 10", None, || ubig!(_a0a base 10), None),
    ("a0a base 10", None, || ubig!(a0a base 10), None),
    ("_a10 base 10", None, || ubig!(_a10 base 10), Some((|| ibig!(_a10 base 10), || ibig!(-_a10 base 10)))),
    ("a10 base 10", None, || ubig!(a10 base 10), None),
    ("_a11 base 10", None, || ubig!(_a11 base 10), None),
    ("a11 base 10", None, || ubig!(a11 base 10), Some((|| ibig!(a11 base 10), || ibig!(-a11 base 10)))),
    ("_a15 base 10", None, || ubig!(_a15 base 10), None),
    ("a15 base 10", None, || ubig!(a15 base 10), None),
    ("_a19 base 10", None, || ubig!(_a19 base 10), Some((|| ibig!(_a19 base 10), || ibig!(-_a19 base 10)))),
    ("a19 base 10", None, || ubig!(a19 base 10), None),
    ("_a1a base 10", None, || ubig!(_a1a base 10), None),
    ("a1a base 10", None, || ubig!(a1a base 10), Some((|| ibig!(a1a base 10), || ibig!(-a1a base 10)))),
    ("_a50 base 10", None, || ubig!(_a50 base 10), None),
    ("a50 base 10", None, || ubig!(a50 base 10), None),
    ("_a51 base 10", None, || ubig!(_a51 base 10), Some((|| ibig!(_a51 base 10), || ibig!(-_a51 base 10)))),
    ("a51 base 10", None, || ubig!(a51 base 10), None),
    ("_a55 base 10", None, || ubig!(_a55 base 10), None),
    ("a55 base 10", None, || ubig!(a55 base 10), Some((|| ibig!(a55 base 10), || ibig!(-a55 base 10)))),
    ("_a59 base 10", None, || ubig!(_a59 base 10), None),
    ("a59 base 10", None, || ubig!(a59 base 10), None),
    ("_a5a base 10", None, || ubig!(_a5a base 10), Some((|| ibig!(_a5a base 10), || ibig!(-_a5a base 10)))),
    ("a5a base 10", None, || ubig!(a5a base 10), None),
    ("_a90 base 10", None, || ubig!(_a90 base 10), None),
    ("a90 base 10", None, || ubig!(a90 base 10), Some((|| ibig!(a90 base 10), || ibig!(-a90 base 10)))),
    ("_a91 base 10", None, || ubig!(_a91 base 10), None),
    ("a91 base 10", None, || ubig!(a91 base 10), None),
    ("_a95 base 10", None, || ubig!(_a95 base 10), Some((|| ibig!(_a95 base 10), || ibig!(-_a95 base 10)))),
    ("a95 base 10", None, || ubig!(a95 base 10), None),
    ("_a99 base 10", None, || ubig!(_a99 base 10), None),
    ("a99 base 10", None, || ubig!(a99 base 10), Some((|| ibig!(a99 base 10), || ibig!(-a99 base 10)))),
    ("_a9a base 10", None, || ubig!(_a9a base 10), None),
    ("a9a base 10", None, || ubig!(a9a base 10), None),
    ("_aa0 base 10", None, || ubig!(_aa0 base 10), Some((|| ibig!(_aa0 base 10), || ibig!(-_aa0 base 10)))),
    ("aa0 base 10", None, || ubig!(aa0 base 10), None),
    ("_aa1 base 10", None, || ubig!(_aa1 base 10), None),
    ("aa1 base 10", None, || ubig!(aa1 base 10), Some((|| ibig!(aa1 base 10), || ibig!(-aa1 base 10)))),
    ("_aa5 base 10", None, || ubig!(_aa5 base 10), None),
    ("aa5 base 10", None, || ubig!(aa5 base 10), None),
    ("_aa9 base 10", None, || ubig!(_aa9 base 10), Some((|| ibig!(_aa9 base 10), || ibig!(-_aa9 base 10)))),
    ("aa9 base 10", None, || ubig!(aa9 base 10), None),
    ("_aaa base 10", None, || ubig!(_aaa base 10), None),
    ("aaa base 10", None, || ubig!(aaa base 10), Some((|| ibig!(aaa base 10), || ibig!(-aaa base 10)))),
    ("_127 base 10", Some("7f"), || ubig!(_127 base 10), None),
    ("_32768 base 10", Some("8000"), || ubig!(_32768 base 10), None),
    ("_131073 base 10", Some("20001"), || ubig!(_131073 base 10), Some((|| ibig!(_131073 base 10), || ibig!(-_131073 base 10)))),
    ("_8589934591 base 10", Some("1ffffffff"), || ubig!(_8589934591 base 10), None),
    ("_281474976710656 base 10", Some("1000000000000"), || ubig!(_281474976710656 base 10), None),
    ("_18446744073709551617 base 10", Some("10000000000000001"), || ubig!(_18446744073709551617 base 10), Some((|| ibig!(_18446744073709551617 base 10), || ibig!(-_18446744073709551617 base 10)))),
    ("_1208925819614629174706175 base 10", Some("ffffffffffffffffffff"), || ubig!(_1208925819614629174706175 base 10), None),
    ("_79228162514264337593543950336 base 10", Some("1000000000000000000000000"), || ubig!(_79228162514264337593543950336 base 10), None),
    ("_170141183460469231731687303715884105729 base 10", Some("80000000000000000000000000000001"), || ubig!(_170141183460469231731687303715884105729 base 10), Some((|| ibig!(_170141183460469231731687303715884105729 base 10), || ibig!(-_170141183460469231731687303715884105729 base 10)))),
    ("_1461501637330902918203684832716283019655932542975 base 10", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_1461501637330902918203684832716283019655932542975 base 10), None),
    ("_57896044618658097711785492504343953926634992332820282019728792003956564819968 base 10", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_57896044618658097711785492504343953926634992332820282019728792003956564819968 base 10), None),
    ("_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577 base 10", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577 base 10), Some((|| ibig!(_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577 base 10), || ibig!(-_2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936577 base 10)))),
    ("_30674428207958060900017656505349311421417148368735108388181864611840 base 10", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_30674428207958060900017656505349311421417148368735108388181864611840 base 10), None),
    ("_1000000000000 base 10", Some("e8d4a51000"), || ubig!(_1000000000000 base 10), None),
    ("_9999999999999999999999999999999999999999 base 10", Some("1d6329f1c35ca4bfabb9f560ffffffffff"), || ubig!(_9999999999999999999999999999999999999999 base 10), Some((|| ibig!(_9999999999999999999999999999999999999999 base 10), || ibig!(-_9999999999999999999999999999999999999999 base 10)))),
    ("_100000000000000000000000000000000000000000 base 10", Some("125dfa371a19e6f7cb54395ca0000000000"), || ubig!(_100000000000000000000000000000000000000000 base 10), None),
    ("_1_0 base 10", None, || ubig!(_1_0 base 10), None),
    ("__1 base 10", None, || ubig!(__1 base 10), Some((|| ibig!(__1 base 10), || ibig!(-__1 base 10)))),
    ("1_0 base 10", None, || ubig!(1_0 base 10), None),
    ("_0 base 11", Some("0"), || ubig!(_0 base 11), None),
    ("0 base 11", Some("0"), || ubig!(0 base 11), Some((|| ibig!(0 base 11), || ibig!(-0 base 11)))),
    ("_1 base 11", Some("1"), || ubig!(_1 base 11), None),
    ("1 base 11", Some("1"), || ubig!(1 base 11), None),
    ("_5 base 11", Some("5"), || ubig!(_5 base 11), Some((|| ibig!(_5 base 11), || ibig!(-_5 base 11)))),
    ("5 base 11", Some("5"), || ubig!(5 base 11), None),
    ("_a base 11", Some("a"), || ubig!(_a base 11), None),
    ("a base 11", Some("a"), || ubig!(a base 11), Some((|| ibig!(a base 11), || ibig!(-a base 11)))),
    ("_b base 11", None, || ubig!(_b base 11), None),
    ("b base 11", None, || ubig!(b base 11), None),
    ("_00 base 11", Some("0"), || ubig!(_00 base 11), Some((|| ibig!(_00 base 11), || ibig!(-_00 base 11)))),
    ("00 base 11", Some("0"), || ubig!(00 base 11), None),
    ("_01 base 11", Some("1"), || ubig!(_01 base 11), None),
    ("01 base 11", Some("1"), || ubig!(01 base 11), Some((|| ibig!(01 base 11), || ibig!(-01 base 11)))),
    ("_05 base 11", Some("5"), || ubig!(_05 base 11), None),
    ("05 base 11", Some("5"), || ubig!(05 base 11), None),
    ("_0a base 11", Some("a"), || ubig!(_0a base 11), Some((|| ibig!(_0a base 11), || ibig!(-_0a base 11)))),
    ("_0b base 11", None, || ubig!(_0b base 11), None),
    ("_10 base 11", Some("b"), || ubig!(_10 base 11), None),
    ("10 base 11", Some("b"), || ubig!(10 base 11), Some((|| ibig!(10 base 11), || ibig!(-10 base 11)))),
    ("_11 base 11", Some("c"), || ubig!(_11 base 11), None),
    ("11 base 11", Some("c"), || ubig!(11 base 11), None),
    ("_15 base 11", Some("10"), || ubig!(_15 base 11), Some((|| ibig!(_15 base 11), || ibig!(-_15 base 11)))),
    ("15 base 11", Some("10"), || ubig!(15 base 11), None),
    ("_1a base 11", Some("15"), || ubig!(_1a base 11), None),
    ("_1b base 11", None, || ubig!(_1b base 11), Some((|| ibig!(_1b base 11), || ibig!(-_1b base 11)))),
    ("_50 base 11", Some("37"), || ubig!(_50 base 11), None),
    ("50 base 11", Some("37"), || ubig!(50 base 11), None),
    ("_51 base 11", Some("38"), || ubig!(_51 base 11), Some((|| ibig!(_51 base 11), || ibig!(-_51 base 11)))),
    ("51 base 11", Some("38"), || ubig!(51 base 11), None),
    ("_55 base 11", Some("3c"), || ubig!(_55 base 11), None),
    ("55 base 11", Some("3c"), || ubig!(55 base 11), Some((|| ibig!(55 base 11), || ibig!(-55 base 11)))),
    ("_5a base 11", Some("41"), || ubig!(_5a base 11), None),
    ("_5b base 11", None, || ubig!(_5b base 11), None),
    ("_a0 base 11", Some("6e"), || ubig!(_a0 base 11), Some((|| ibig!(_a0 base 11), || ibig!(-_a0 base 11)))),
    ("a0 base 11", Some("6e"), || ubig!(a0 base 11), None),
    ("_a1 base 11", Some("6f"), || ubig!(_a1 base 11), None),
    ("a1 base 11", Some("6f"), || ubig!(a1 base 11), Some((|| ibig!(a1 base 11), || ibig!(-a1 base 11)))),
    ("_a5 base 11", Some("73"), || ubig!(_a5 base 11), None),
    ("a5 base 11", Some("73"), || ubig!(a5 base 11), None),
    ("_aa base 11", Some("78"), || ubig!(_aa base 11), Some((|| ibig!(_aa base 11), || ibig!(-_aa base 11)))),
    ("aa base 11", Some("78"), || ubig!(aa base 11), None),
    ("_ab base 11", None, || ubig!(_ab base 11), None),
    ("ab base 11", None, || ubig!(ab base 11), Some((|| ibig!(ab base 11), || ibig!(-ab base 11)))),
    ("_b0 base 11", None, || ubig!(_b0 base 11), None),
    ("b0 base 11", None, || ubig!(b0 base 11), None),
    ("_b1 base 11", None, || ubig!(_b1 base 11), Some((|| ibig!(_b1 base 11), || ibig!(-_b1 base 11)))),
    ("b1 base 11", None, || ubig!(b1 base 11), None),
    ("_b5 base 11", None, || ubig!(_b5 base 11), None),
    ("b5 base 11", None, || ubig!(b5 base 11), Some((|| ibig!(b5 base 11), || ibig!(-b5 base 11)))),
    ("_ba base 11", None, || ubig!(_ba base 11), None),
    ("ba base 11", None, || ubig!(ba base 11), None),
    ("_bb base 11", None, || ubig!(_bb base 11), Some((|| ibig!(_bb base 11), || ibig!(-_bb base 11)))),
    ("bb base 11", None, || ubig!(bb base 11), None),
    ("_106 base 11", Some("7f"), || ubig!(_106 base 11), None),
    ("_2268a base 11", Some("8000"), || ubig!(_2268a base 11), Some((|| ibig!(_2268a base 11), || ibig!(-_2268a base 11)))),
    ("_2268A base 11", Some("8000"), || ubig!(_2268A base 11), None),
    ("_8a528 base 11", Some("20001"), || ubig!(_8a528 base 11), None),
    ("_8A528 base 11", Some("20001"), || ubig!(_8A528 base 11), Some((|| ibig!(_8A528 base 11), || ibig!(-_8A528 base 11)))),
    ("_3708880aa7 base 11", Some("1ffffffff"), || ubig!(_3708880aa7 base 11), None),
    ("_3708880AA7 base 11", Some("1ffffffff"), || ubig!(_3708880AA7 base 11), None),
    ("_8176095a352163 base 11", Some("1000000000000"), || ubig!(_8176095a352163 base 11), Some((|| ibig!(_8176095a352163 base 11), || ibig!(-_8176095a352163 base 11)))),
    ("_8176095A352163 base 11", Some("1000000000000"), || ubig!(_8176095A352163 base 11), None),
    ("_335500516a429071286 base 11", Some("10000000000000001"), || ubig!(_335500516a429071286 base 11), None),
    ("_335500516A429071286 base 11", Some("10000000000000001"), || ubig!(_335500516A429071286 base 11), Some((|| ibig!(_335500516A429071286 base 11), || ibig!(-_335500516A429071286 base 11)))),
    ("_1393a9a31546a77606a73870 base 11", Some("ffffffffffffffffffff"), || ubig!(_1393a9a31546a77606a73870 base 11), None),
    ("_1393A9A31546A77606A73870 base 11", Some("ffffffffffffffffffff"), || ubig!(_1393A9A31546A77606A73870 base 11), None),
    ("_605276091a6009863370a7a26139 base 11", Some("1000000000000000000000000"), || ubig!(_605276091a6009863370a7a26139 base 11), Some((|| ibig!(_605276091a6009863370a7a26139 base 11), || ibig!(-_605276091a6009863370a7a26139 base 11)))),
    ("_605276091A6009863370A7A26139 base 11", Some("1000000000000000000000000"), || ubig!(_605276091A6009863370A7A26139 base 11), None),
    ("_555a8020989a11327710815513a946a188728 base 11", Some("80000000000000000000000000000001"), || ubig!(_555a8020989a11327710815513a946a188728 base 11), None),
];
pub static PART17: &[Row] = &[
    ("_555A8020989A11327710815513A946A188728 base 11", Some("80000000000000000000000000000001"), || ubig!(_555A8020989A11327710815513A946A188728 base 11), Some((|| ibig!(_555A8020989A11327710815513A946A188728 base 11), || ibig!(-_555A8020989A11327710815513A946A188728 base 11)))),
    ("_190614640469828646181a0295a10195a4260a3431a3030 base 11", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_190614640469828646181a0295a10195a4260a3431a3030 base 11), None),
    ("_190614640469828646181A0295A10195A4260A3431A3030 base 11", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_190614640469828646181A0295A10195A4260A3431A3030 base 11), None),
    ("_5564a636a683a141740734645043a52561643a0a749a7776a6175922499a363054a116209a base 11", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_5564a636a683a141740734645043a52561643a0a749a7776a6175922499a363054a116209a base 11), Some((|| ibig!(_5564a636a683a141740734645043a52561643a0a749a7776a6175922499a363054a116209a base 11), || ibig!(-_5564a636a683a141740734645043a52561643a0a749a7776a6175922499a363054a116209a base 11)))),
    ("_5564A636A683A141740734645043A52561643A0A749A7776A6175922499A363054A116209A base 11", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_5564A636A683A141740734645043A52561643A0A749A7776A6175922499A363054A116209A base 11), None),
    ("_336035079532223393017a5189171447447aa6999521a45a687905241961a72200268735a539934318a1104a56962 base 11", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_336035079532223393017a5189171447447aa6999521a45a687905241961a72200268735a539934318a1104a56962 base 11), None),
    ("_336035079532223393017A5189171447447AA6999521A45A687905241961A72200268735A539934318A1104A56962 base 11", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_336035079532223393017A5189171447447AA6999521A45A687905241961A72200268735A539934318A1104A56962 base 11), Some((|| ibig!(_336035079532223393017A5189171447447AA6999521A45A687905241961A72200268735A539934318A1104A56962 base 11), || ibig!(-_336035079532223393017A5189171447447AA6999521A45A687905241961A72200268735A539934318A1104A56962 base 11)))),
    ("_697651273a069509047946761a85a83717575732201930138a75149998a430502 base 11", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_697651273a069509047946761a85a83717575732201930138a75149998a430502 base 11), None),
    ("_697651273A069509047946761A85A83717575732201930138A75149998A430502 base 11", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_697651273A069509047946761A85A83717575732201930138A75149998A430502 base 11), None),
    ("_1000000000000 base 11", Some("2dab8e89691"), || ubig!(_1000000000000 base 11), Some((|| ibig!(_1000000000000 base 11), || ibig!(-_1000000000000 base 11)))),
    ("_aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa base 11", Some("5320ccb8f3676cc1e193dfe212861c730e0"), || ubig!(_aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa base 11), None),
    ("_AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA base 11", Some("5320ccb8f3676cc1e193dfe212861c730e0"), || ubig!(_AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA base 11), None),
    ("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA base 11", Some("5320ccb8f3676cc1e193dfe212861c730e0"), || ubig!(AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA base 11), Some((|| ibig!(AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA base 11), || ibig!(-AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA base 11)))),
    ("_100000000000000000000000000000000000000000 base 11", Some("39268cbf27571ac54b15a9eb6cbc338f19ab"), || ubig!(_100000000000000000000000000000000000000000 base 11), None),
    ("_1_0 base 11", None, || ubig!(_1_0 base 11), None),
    ("__1 base 11", None, || ubig!(__1 base 11), Some((|| ibig!(__1 base 11), || ibig!(-__1 base 11)))),
    ("1_0 base 11", None, || ubig!(1_0 base 11), None),
    ("_0 base 12", Some("0"), || ubig!(_0 base 12), None),
    ("0 base 12", Some("0"), || ubig!(0 base 12), Some((|| ibig!(0 base 12), || ibig!(-0 base 12)))),
    ("_1 base 12", Some("1"), || ubig!(_1 base 12), None),
    ("1 base 12", Some("1"), || ubig!(1 base 12), None),
    ("_6 base 12", Some("6"), || ubig!(_6 base 12), Some((|| ibig!(_6 base 12), || ibig!(-_6 base 12)))),
    ("6 base 12", Some("6"), || ubig!(6 base 12), None),
    ("_b base 12", Some("b"), || ubig!(_b base 12), None),
    ("b base 12", Some("b"), || ubig!(b base 12), Some((|| ibig!(b base 12), || ibig!(-b base 12)))),
    ("_c base 12", None, || ubig!(_c base 12), None),
    ("c base 12", None, || ubig!(c base 12), None),
    ("_00 base 12", Some("0"), || ubig!(_00 base 12), Some((|| ibig!(_00 base 12), || ibig!(-_00 base 12)))),
    ("00 base 12", Some("0"), || ubig!(00 base 12), None),
    ("_01 base 12", Some("1"), || ubig!(_01 base 12), None),
    ("01 base 12", Some("1"), || ubig!(01 base 12), Some((|| ibig!(01 base 12), || ibig!(-01 base 12)))),
    ("_06 base 12", Some("6"), || ubig!(_06 base 12), None),
    ("06 base 12", Some("6"), || ubig!(06 base 12), None),
    ("_0b base 12", Some("b"), || ubig!(_0b base 12), Some((|| ibig!(_0b base 12), || ibig!(-_0b base 12)))),
    ("_0c base 12", None, || ubig!(_0c base 12), None),
    ("_10 base 12", Some("c"), || ubig!(_10 base 12), None),
    ("10 base 12", Some("c"), || ubig!(10 base 12), Some((|| ibig!(10 base 12), || ibig!(-10 base 12)))),
    ("_11 base 12", Some("d"), || ubig!(_11 base 12), None),
    ("11 base 12", Some("d"), || ubig!(11 base 12), None),
    ("_16 base 12", Some("12"), || ubig!(_16 base 12), Some((|| ibig!(_16 base 12), || ibig!(-_16 base 12)))),
    ("16 base 12", Some("12"), || ubig!(16 base 12), None),
    ("_1b base 12", Some("17"), || ubig!(_1b base 12), None),
    ("_1c base 12", None, || ubig!(_1c base 12), Some((|| ibig!(_1c base 12), || ibig!(-_1c base 12)))),
    ("_60 base 12", Some("48"), || ubig!(_60 base 12), None),
    ("60 base 12", Some("48"), || ubig!(60 base 12), None),
    ("_61 base 12", Some("49"), || ubig!(_61 base 12), Some((|| ibig!(_61 base 12), || ibig!(-_61 base 12)))),
    ("61 base 12", Some("49"), || ubig!(61 base 12), None),
    ("_66 base 12", Some("4e"), || ubig!(_66 base 12), None),
    ("66 base 12", Some("4e"), || ubig!(66 base 12), Some((|| ibig!(66 base 12), || ibig!(-66 base 12)))),
    ("_6b base 12", Some("53"), || ubig!(_6b base 12), None),
    ("_6c base 12", None, || ubig!(_6c base 12), None),
    ("_b0 base 12", Some("84"), || ubig!(_b0 base 12), Some((|| ibig!(_b0 base 12), || ibig!(-_b0 base 12)))),
    ("b0 base 12", Some("84"), || ubig!(b0 base 12), None),
    ("_b1 base 12", Some("85"), || ubig!(_b1 base 12), None),
    ("b1 base 12", Some("85"), || ubig!(b1 base 12), Some((|| ibig!(b1 base 12), || ibig!(-b1 base 12)))),
    ("_b6 base 12", Some("8a"), || ubig!(_b6 base 12), None),
    ("b6 base 12", Some("8a"), || ubig!(b6 base 12), None),
    ("_bb base 12", Some("8f"), || ubig!(_bb base 12), Some((|| ibig!(_bb base 12), || ibig!(-_bb base 12)))),
    ("bb base 12", Some("8f"), || ubig!(bb base 12), None),
    ("_bc base 12", None, || ubig!(_bc base 12), None),
    ("bc base 12", None, || ubig!(bc base 12), Some((|| ibig!(bc base 12), || ibig!(-bc base 12)))),
    ("_c0 base 12", None, || ubig!(_c0 base 12), None),
    ("c0 base 12", None, || ubig!(c0 base 12), None),
    ("_c1 base 12", None, || ubig!(_c1 base 12), Some((|| ibig!(_c1 base 12), || ibig!(-_c1 base 12)))),
    ("c1 base 12", None, || ubig!(c1 base 12), None),
    ("_c6 base 12", None, || ubig!(_c6 base 12), None),
    ("c6 base 12", None, || ubig!(c6 base 12), Some((|| ibig!(c6 base 12), || ibig!(-c6 base 12)))),
    ("_cb base 12", None, || ubig!(_cb base 12), None),
    ("cb base 12", None, || ubig!(cb base 12), None),
    ("_cc base 12", None, || ubig!(_cc base 12), Some((|| ibig!(_cc base 12), || ibig!(-_cc base 12)))),
    ("cc base 12", None, || ubig!(cc base 12), None),
    ("_a7 base 12", Some("7f"), || ubig!(_a7 base 12), None),
    ("_A7 base 12", Some("7f"), || ubig!(_A7 base 12), Some((|| ibig!(_A7 base 12), || ibig!(-_A7 base 12)))),
    ("A7 base 12", Some("7f"), || ubig!(A7 base 12), None),
    ("_16b68 base 12", Some("8000"), || ubig!(_16b68 base 12), None),
    ("_16B68 base 12", Some("8000"), || ubig!(_16B68 base 12), Some((|| ibig!(_16B68 base 12), || ibig!(-_16B68 base 12)))),
    ("_63a29 base 12", Some("20001"), || ubig!(_63a29 base 12), None),
    ("_63A29 base 12", Some("20001"), || ubig!(_63A29 base 12), None),
    ("_17b8902b67 base 12", Some("1ffffffff"), || ubig!(_17b8902b67 base 12), Some((|| ibig!(_17b8902b67 base 12), || ibig!(-_17b8902b67 base 12)))),
    ("_17B8902B67 base 12", Some("1ffffffff"), || ubig!(_17B8902B67 base 12), None),
    ("_2769b8a022a454 base 12", Some("1000000000000"), || ubig!(_2769b8a022a454 base 12), None),
    ("_2769B8A022A454 base 12", Some("1000000000000"), || ubig!(_2769B8A022A454 base 12), Some((|| ibig!(_2769B8A022A454 base 12), || ibig!(-_2769B8A022A454 base 12)))),
    ("_839365134a2a240715 base 12", Some("10000000000000001"), || ubig!(_839365134a2a240715 base 12), None),
    ("_839365134A2A240715 base 12", Some("10000000000000001"), || ubig!(_839365134A2A240715 base 12), None),
    ("_2234061042a886251704193 base 12", Some("ffffffffffffffffffff"), || ubig!(_2234061042a886251704193 base 12), Some((|| ibig!(_2234061042a886251704193 base 12), || ibig!(-_2234061042a886251704193 base 12)))),
    ("_2234061042A886251704193 base 12", Some("ffffffffffffffffffff"), || ubig!(_2234061042A886251704193 base 12), None),
    ("_6b075381862241294a4427a5054 base 12", Some("1000000000000000000000000"), || ubig!(_6b075381862241294a4427a5054 base 12), None),
    ("_6B075381862241294A4427A5054 base 12", Some("1000000000000000000000000"), || ubig!(_6B075381862241294A4427A5054 base 12), Some((|| ibig!(_6B075381862241294A4427A5054 base 12), || ibig!(-_6B075381862241294A4427A5054 base 12)))),
    ("_2a695925806818735399a37a20a31b3534a9 base 12", Some("80000000000000000000000000000001"), || ubig!(_2a695925806818735399a37a20a31b3534a9 base 12), None),
    ("_2A695925806818735399A37A20A31B3534A9 base 12", Some("80000000000000000000000000000001"), || ubig!(_2A695925806818735399A37A20A31B3534A9 base 12), None),
    ("_496653ba15b95867701865716816b05998a830ba59b13 base 12", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_496653ba15b95867701865716816b05998a830ba59b13 base 12), Some((|| ibig!(_496653ba15b95867701865716816b05998a830ba59b13 base 12), || ibig!(-_496653ba15b95867701865716816b05998a830ba59b13 base 12)))),
    ("_496653BA15B95867701865716816B05998A830BA59B13 base 12", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_496653BA15B95867701865716816B05998A830BA59B13 base 12), None),
    ("_1471716a2457a90b2a6952a7598593ab58bb221690484007749639852a096b1660bb9768 base 12", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_1471716a2457a90b2a6952a7598593ab58bb221690484007749639852a096b1660bb9768 base 12), None),
    ("_1471716A2457A90B2A6952A7598593AB58BB221690484007749639852A096B1660BB9768 base 12", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_1471716A2457A90B2A6952A7598593AB58BB221690484007749639852A096B1660BB9768 base 12), Some((|| ibig!(_1471716A2457A90B2A6952A7598593AB58BB221690484007749639852A096B1660BB9768 base 12), || ibig!(-_1471716A2457A90B2A6952A7598593AB58BB221690484007749639852A096B1660BB9768 base 12)))),
    ("_1abb494804779966660b7553b8a6942872a3a365023673a852665487a2b97940a380492aa12b423a18b0375595 base 12", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_1abb494804779966660b7553b8a6942872a3a365023673a852665487a2b97940a380492aa12b423a18b0375595 base 12), None),
    ("_1ABB494804779966660B7553B8A6942872A3A365023673A852665487A2B97940A380492AA12B423A18B0375595 base 12", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_1ABB494804779966660B7553B8A6942872A3A365023673A852665487A2B97940A380492AA12B423A18B0375595 base 12), None),
    ("_3944678044bb16b66737665252b6125264809922852229a163a51ab77708a80 base 12", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_3944678044bb16b66737665252b6125264809922852229a163a51ab77708a80 base 12), Some((|| ibig!(_3944678044bb16b66737665252b6125264809922852229a163a51ab77708a80 base 12), || ibig!(-_3944678044bb16b66737665252b6125264809922852229a163a51ab77708a80 base 12)))),
    ("_3944678044BB16B66737665252B6125264809922852229A163A51AB77708A80 base 12", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_3944678044BB16B66737665252B6125264809922852229A163A51AB77708A80 base 12), None),
    ("_1000000000000 base 12", Some("81bf1000000"), || ubig!(_1000000000000 base 12), None),
    ("_bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb base 12", Some("a8b8b452291fe820ffffffffffffffffffff"), || ubig!(_bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb base 12), Some((|| ibig!(_bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb base 12), || ibig!(-_bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb base 12)))),
    ("_BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB base 12", Some("a8b8b452291fe820ffffffffffffffffffff"), || ubig!(_BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB base 12), None),
    ("BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB base 12", Some("a8b8b452291fe820ffffffffffffffffffff"), || ubig!(BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB base 12), None),
    ("_100000000000000000000000000000000000000000 base 12", Some("7e8a873d9ed7ee18c00000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 12), Some((|| ibig!(_100000000000000000000000000000000000000000 base 12), || ibig!(-_100000000000000000000000000000000000000000 base 12)))),
    ("_1_0 base 12", None, || ubig!(_1_0 base 12), None),
    ("__1 base 12", None, || ubig!(__1 base 12), None),
    ("1_0 base 12", None, || ubig!(1_0 base 12), Some((|| ibig!(1_0 base 12), || ibig!(-1_0 base 12)))),
    ("_0 base 13", Some("0"), || ubig!(_0 base 13), None),
    ("0 base 13", Some("0"), || ubig!(0 base 13), None),
    ("_1 base 13", Some("1"), || ubig!(_1 base 13), Some((|| ibig!(_1 base 13), || ibig!(-_1 base 13)))),
    ("1 base 13", Some("1"), || ubig!(1 base 13), None),
    ("_6 base 13", Some("6"), || ubig!(_6 base 13), None),
    ("6 base 13", Some("6"), || ubig!(6 base 13), Some((|| ibig!(6 base 13), || ibig!(-6 base 13)))),
    ("_c base 13", Some("c"), || ubig!(_c base 13), None),
    ("c base 13", Some("c"), || ubig!(c base 13), None),
    ("_d base 13", None, || ubig!(_d base 13), Some((|| ibig!(_d base 13), || ibig!(-_d base 13)))),
    ("d base 13", None, || ubig!(d base 13), None),
    ("_00 base 13", Some("0"), || ubig!(_00 base 13), None),
    ("00 base 13", Some("0"), || ubig!(00 base 13), Some((|| ibig!(00 base 13), || ibig!(-00 base 13)))),
    ("_01 base 13", Some("1"), || ubig!(_01 base 13), None),
    ("01 base 13", Some("1"), || ubig!(01 base 13), None),
    ("_06 base 13", Some("6"), || ubig!(_06 base 13), Some((|| ibig!(_06 base 13), || ibig!(-_06 base 13)))),
    ("06 base 13", Some("6"), || ubig!(06 base 13), None),
    ("_0c base 13", Some("c"), || ubig!(_0c base 13), None),
    ("_0d base 13", None, || ubig!(_0d base 13), Some((|| ibig!(_0d base 13), || ibig!(-_0d base 13)))),
    ("_10 base 13", Some("d"), || ubig!(_10 base 13), None),
    ("10 base 13", Some("d"), || ubig!(10 base 13), None),
    ("_11 base 13", Some("e"), || ubig!(_11 base 13), Some((|| ibig!(_11 base 13), || ibig!(-_11 base 13)))),
    ("11 base 13", Some("e"), || ubig!(11 base 13), None),
    ("_16 base 13", Some("13"), || ubig!(_16 base 13), None),
    ("16 base 13", Some("13"), || ubig!(16 base 13), Some((|| ibig!(16 base 13), || ibig!(-16 base 13)))),
    ("_1c base 13", Some("19"), || ubig!(_1c base 13), None),
    ("_1d base 13", None, || ubig!(_1d base 13), None),
    ("_60 base 13", Some("4e"), || ubig!(_60 base 13), Some((|| ibig!(_60 base 13), || ibig!(-_60 base 13)))),
    ("60 base 13", Some("4e"), || ubig!(60 base 13), None),
    ("_61 base 13", Some("4f"), || ubig!(_61 base 13), None),
    ("61 base 13", Some("4f"), || ubig!(61 base 13), Some((|| ibig!(61 base 13), || ibig!(-61 base 13)))),
    ("_66 base 13", Some("54"), || ubig!(_66 base 13), None),
    ("66 base 13", Some("54"), || ubig!(66 base 13), None),
    ("_6c base 13", Some("5a"), || ubig!(_6c base 13), Some((|| ibig!(_6c base 13), || ibig!(-_6c base 13)))),
    ("_6d base 13", None, || ubig!(_6d base 13), None),
    ("_c0 base 13", Some("9c"), || ubig!(_c0 base 13), None),
    ("c0 base 13", Some("9c"), || ubig!(c0 base 13), Some((|| ibig!(c0 base 13), || ibig!(-c0 base 13)))),
    ("_c1 base 13", Some("9d"), || ubig!(_c1 base 13), None),
    ("c1 base 13", Some("9d"), || ubig!(c1 base 13), None),
    ("_c6 base 13", Some("a2"), || ubig!(_c6 base 13), Some((|| ibig!(_c6 base 13), || ibig!(-_c6 base 13)))),
    ("c6 base 13", Some("a2"), || ubig!(c6 base 13), None),
    ("_cc base 13", Some("a8"), || ubig!(_cc base 13), None),
    ("cc base 13", Some("a8"), || ubig!(cc base 13), Some((|| ibig!(cc base 13), || ibig!(-cc base 13)))),
    ("_cd base 13", None, || ubig!(_cd base 13), None),
    ("cd base 13", None, || ubig!(cd base 13), None),
];
pub static PART18: &[Row] = &[
    ("_d0 base 13", None, || ubig!(_d0 base 13), Some((|| ibig!(_d0 base 13), || ibig!(-_d0 base 13)))),
    ("d0 base 13", None, || ubig!(d0 base 13), None),
    ("_d1 base 13", None, || ubig!(_d1 base 13), None),
    ("d1 base 13", None, || ubig!(d1 base 13), Some((|| ibig!(d1 base 13), || ibig!(-d1 base 13)))),
    ("_d6 base 13", None, || ubig!(_d6 base 13), None),
    ("d6 base 13", None, || ubig!(d6 base 13), None),
    ("_dc base 13", None, || ubig!(_dc base 13), Some((|| ibig!(_dc base 13), || ibig!(-_dc base 13)))),
    ("dc base 13", None, || ubig!(dc base 13), None),
    ("_dd base 13", None, || ubig!(_dd base 13), None),
    ("dd base 13", None, || ubig!(dd base 13), Some((|| ibig!(dd base 13), || ibig!(-dd base 13)))),
    ("_9a base 13", Some("7f"), || ubig!(_9a base 13), None),
    ("_9A base 13", Some("7f"), || ubig!(_9A base 13), None),
    ("_11bb8 base 13", Some("8000"), || ubig!(_11bb8 base 13), Some((|| ibig!(_11bb8 base 13), || ibig!(-_11bb8 base 13)))),
    ("_11BB8 base 13", Some("8000"), || ubig!(_11BB8 base 13), None),
    ("_47877 base 13", Some("20001"), || ubig!(_47877 base 13), None),
    ("_a6b826444 base 13", Some("1ffffffff"), || ubig!(_a6b826444 base 13), Some((|| ibig!(_a6b826444 base 13), || ibig!(-_a6b826444 base 13)))),
    ("_A6B826444 base 13", Some("1ffffffff"), || ubig!(_A6B826444 base 13), None),
    ("A6B826444 base 13", Some("1ffffffff"), || ubig!(A6B826444 base 13), None),
    ("_c109c902387c1 base 13", Some("1000000000000"), || ubig!(_c109c902387c1 base 13), Some((|| ibig!(_c109c902387c1 base 13), || ibig!(-_c109c902387c1 base 13)))),
    ("_C109C902387C1 base 13", Some("1000000000000"), || ubig!(_C109C902387C1 base 13), None),
    ("C109C902387C1 base 13", Some("1000000000000"), || ubig!(C109C902387C1 base 13), None),
    ("_219505a9511a867b74 base 13", Some("10000000000000001"), || ubig!(_219505a9511a867b74 base 13), Some((|| ibig!(_219505a9511a867b74 base 13), || ibig!(-_219505a9511a867b74 base 13)))),
    ("_219505A9511A867B74 base 13", Some("10000000000000001"), || ubig!(_219505A9511A867B74 base 13), None),
    ("_4b7c364ba2202ab8b7c6c8 base 13", Some("ffffffffffffffffffff"), || ubig!(_4b7c364ba2202ab8b7c6c8 base 13), None),
    ("_4B7C364BA2202AB8B7C6C8 base 13", Some("ffffffffffffffffffff"), || ubig!(_4B7C364BA2202AB8B7C6C8 base 13), Some((|| ibig!(_4B7C364BA2202AB8B7C6C8 base 13), || ibig!(-_4B7C364BA2202AB8B7C6C8 base 13)))),
    ("_b2c670249ca90718b3310213b1 base 13", Some("1000000000000000000000000"), || ubig!(_b2c670249ca90718b3310213b1 base 13), None),
    ("_B2C670249CA90718B3310213B1 base 13", Some("1000000000000000000000000"), || ubig!(_B2C670249CA90718B3310213B1 base 13), None),
    ("B2C670249CA90718B3310213B1 base 13", Some("1000000000000000000000000"), || ubig!(B2C670249CA90718B3310213B1 base 13), Some((|| ibig!(B2C670249CA90718B3310213B1 base 13), || ibig!(-B2C670249CA90718B3310213B1 base 13)))),
    ("_2373464c8a3cb25ba2b7c6382b2963bb71c base 13", Some("80000000000000000000000000000001"), || ubig!(_2373464c8a3cb25ba2b7c6382b2963bb71c base 13), None),
    ("_2373464C8A3CB25BA2B7C6382B2963BB71C base 13", Some("80000000000000000000000000000001"), || ubig!(_2373464C8A3CB25BA2B7C6382B2963BB71C base 13), None),
    ("_1ac349c1c25c98bc4331ba041bcc7696a050120b3912 base 13", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_1ac349c1c25c98bc4331ba041bcc7696a050120b3912 base 13), Some((|| ibig!(_1ac349c1c25c98bc4331ba041bcc7696a050120b3912 base 13), || ibig!(-_1ac349c1c25c98bc4331ba041bcc7696a050120b3912 base 13)))),
    ("_1AC349C1C25C98BC4331BA041BCC7696A050120B3912 base 13", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_1AC349C1C25C98BC4331BA041BCC7696A050120B3912 base 13), None),
    ("_a454c546a8ccb8476bc1c3b328c60971088aabc0b27b23000c4383435a916192432a8 base 13", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_a454c546a8ccb8476bc1c3b328c60971088aabc0b27b23000c4383435a916192432a8 base 13), None),
    ("_A454C546A8CCB8476BC1C3B328C60971088AABC0B27B23000C4383435A916192432A8 base 13", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_A454C546A8CCB8476BC1C3B328C60971088AABC0B27B23000C4383435A916192432A8 base 13), Some((|| ibig!(_A454C546A8CCB8476BC1C3B328C60971088AABC0B27B23000C4383435A916192432A8 base 13), || ibig!(-_A454C546A8CCB8476BC1C3B328C60971088AABC0B27B23000C4383435A916192432A8 base 13)))),
    ("A454C546A8CCB8476BC1C3B328C60971088AABC0B27B23000C4383435A916192432A8 base 13", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(A454C546A8CCB8476BC1C3B328C60971088AABC0B27B23000C4383435A916192432A8 base 13), None),
    ("_351361a88022a728330993cc7968a59b51966164540c3c75c939cb925ca872768644490443c807a24a0136a base 13", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_351361a88022a728330993cc7968a59b51966164540c3c75c939cb925ca872768644490443c807a24a0136a base 13), None),
    ("_351361A88022A728330993CC7968A59B51966164540C3C75C939CB925CA872768644490443C807A24A0136A base 13", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_351361A88022A728330993CC7968A59B51966164540C3C75C939CB925CA872768644490443C807A24A0136A base 13), Some((|| ibig!(_351361A88022A728330993CC7968A59B51966164540C3C75C939CB925CA872768644490443C807A24A0136A base 13), || ibig!(-_351361A88022A728330993CC7968A59B51966164540C3C75C939CB925CA872768644490443C807A24A0136A base 13)))),
    ("_46127a82b66ba8a4540309a7b5849c9887c3613c03b7543241623a7639408 base 13", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_46127a82b66ba8a4540309a7b5849c9887c3613c03b7543241623a7639408 base 13), None),
    ("_46127A82B66BA8A4540309A7B5849C9887C3613C03B7543241623A7639408 base 13", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_46127A82B66BA8A4540309A7B5849C9887C3613C03B7543241623A7639408 base 13), None),
    ("_1000000000000 base 13", Some("1530821671b1"), || ubig!(_1000000000000 base 13), Some((|| ibig!(_1000000000000 base 13), || ibig!(-_1000000000000 base 13)))),
    ("_cccccccccccccccccccccccccccccccccccccccc base 13", Some("10323e09dbdfcf2b99b1594f797ee53c9878a0"), || ubig!(_cccccccccccccccccccccccccccccccccccccccc base 13), None),
    ("_CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC base 13", Some("10323e09dbdfcf2b99b1594f797ee53c9878a0"), || ubig!(_CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC base 13), None),
    ("CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC base 13", Some("10323e09dbdfcf2b99b1594f797ee53c9878a0"), || ubig!(CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC base 13), Some((|| ibig!(CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC base 13), || ibig!(-CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC base 13)))),
    ("_100000000000000000000000000000000000000000 base 13", Some("d28d26802a5d8536ce0189092b71a413be202d"), || ubig!(_100000000000000000000000000000000000000000 base 13), None),
    ("_1_0 base 13", None, || ubig!(_1_0 base 13), None),
    ("__1 base 13", None, || ubig!(__1 base 13), Some((|| ibig!(__1 base 13), || ibig!(-__1 base 13)))),
    ("1_0 base 13", None, || ubig!(1_0 base 13), None),
    ("_0 base 14", Some("0"), || ubig!(_0 base 14), None),
    ("0 base 14", Some("0"), || ubig!(0 base 14), Some((|| ibig!(0 base 14), || ibig!(-0 base 14)))),
    ("_1 base 14", Some("1"), || ubig!(_1 base 14), None),
    ("1 base 14", Some("1"), || ubig!(1 base 14), None),
    ("_7 base 14", Some("7"), || ubig!(_7 base 14), Some((|| ibig!(_7 base 14), || ibig!(-_7 base 14)))),
    ("7 base 14", Some("7"), || ubig!(7 base 14), None),
    ("_d base 14", Some("d"), || ubig!(_d base 14), None),
    ("d base 14", Some("d"), || ubig!(d base 14), Some((|| ibig!(d base 14), || ibig!(-d base 14)))),
    ("_e base 14", None, || ubig!(_e base 14), None),
    ("e base 14", None, || ubig!(e base 14), None),
    ("_00 base 14", Some("0"), || ubig!(_00 base 14), Some((|| ibig!(_00 base 14), || ibig!(-_00 base 14)))),
    ("00 base 14", Some("0"), || ubig!(00 base 14), None),
    ("_01 base 14", Some("1"), || ubig!(_01 base 14), None),
    ("01 base 14", Some("1"), || ubig!(01 base 14), Some((|| ibig!(01 base 14), || ibig!(-01 base 14)))),
    ("_07 base 14", Some("7"), || ubig!(_07 base 14), None),
    ("07 base 14", Some("7"), || ubig!(07 base 14), None),
    ("_0d base 14", Some("d"), || ubig!(_0d base 14), Some((|| ibig!(_0d base 14), || ibig!(-_0d base 14)))),
    ("_0e base 14", None, || ubig!(_0e base 14), None),
    ("_10 base 14", Some("e"), || ubig!(_10 base 14), None),
    ("10 base 14", Some("e"), || ubig!(10 base 14), Some((|| ibig!(10 base 14), || ibig!(-10 base 14)))),
    ("_11 base 14", Some("f"), || ubig!(_11 base 14), None),
    ("11 base 14", Some("f"), || ubig!(11 base 14), None),
    ("_17 base 14", Some("15"), || ubig!(_17 base 14), Some((|| ibig!(_17 base 14), || ibig!(-_17 base 14)))),
    ("17 base 14", Some("15"), || ubig!(17 base 14), None),
    ("_1d base 14", Some("1b"), || ubig!(_1d base 14), None),
    ("_1e base 14", None, || ubig!(_1e base 14), Some((|| ibig!(_1e base 14), || ibig!(-_1e base 14)))),
    ("_70 base 14", Some("62"), || ubig!(_70 base 14), None),
    ("70 base 14", Some("62"), || ubig!(70 base 14), None),
    ("_71 base 14", Some("63"), || ubig!(_71 base 14), Some((|| ibig!(_71 base 14), || ibig!(-_71 base 14)))),
    ("71 base 14", Some("63"), || ubig!(71 base 14), None),
    ("_77 base 14", Some("69"), || ubig!(_77 base 14), None),
    ("77 base 14", Some("69"), || ubig!(77 base 14), Some((|| ibig!(77 base 14), || ibig!(-77 base 14)))),
    ("_7d base 14", Some("6f"), || ubig!(_7d base 14), None),
    ("_7e base 14", None, || ubig!(_7e base 14), None),
    ("_d0 base 14", Some("b6"), || ubig!(_d0 base 14), Some((|| ibig!(_d0 base 14), || ibig!(-_d0 base 14)))),
    ("d0 base 14", Some("b6"), || ubig!(d0 base 14), None),
    ("_d1 base 14", Some("b7"), || ubig!(_d1 base 14), None),
    ("d1 base 14", Some("b7"), || ubig!(d1 base 14), Some((|| ibig!(d1 base 14), || ibig!(-d1 base 14)))),
    ("_d7 base 14", Some("bd"), || ubig!(_d7 base 14), None),
    ("d7 base 14", Some("bd"), || ubig!(d7 base 14), None),
    ("_dd base 14", Some("c3"), || ubig!(_dd base 14), Some((|| ibig!(_dd base 14), || ibig!(-_dd base 14)))),
    ("dd base 14", Some("c3"), || ubig!(dd base 14), None),
    ("_de base 14", None, || ubig!(_de base 14), None),
    ("de base 14", None, || ubig!(de base 14), Some((|| ibig!(de base 14), || ibig!(-de base 14)))),
    ("_e0 base 14", None, || ubig!(_e0 base 14), None),
    ("e0 base 14", None, || ubig!(e0 base 14), None),
    ("_e1 base 14", None, || ubig!(_e1 base 14), Some((|| ibig!(_e1 base 14), || ibig!(-_e1 base 14)))),
    ("e1 base 14", None, || ubig!(e1 base 14), None),
    ("_e7 base 14", None, || ubig!(_e7 base 14), None),
    ("e7 base 14", None, || ubig!(e7 base 14), Some((|| ibig!(e7 base 14), || ibig!(-e7 base 14)))),
    ("_ed base 14", None, || ubig!(_ed base 14), None),
    ("ed base 14", None, || ubig!(ed base 14), None),
    ("_ee base 14", None, || ubig!(_ee base 14), Some((|| ibig!(_ee base 14), || ibig!(-_ee base 14)))),
    ("ee base 14", None, || ubig!(ee base 14), None),
    ("_91 base 14", Some("7f"), || ubig!(_91 base 14), None),
    ("_bd28 base 14", Some("8000"), || ubig!(_bd28 base 14), Some((|| ibig!(_bd28 base 14), || ibig!(-_bd28 base 14)))),
    ("_BD28 base 14", Some("8000"), || ubig!(_BD28 base 14), None),
    ("BD28 base 14", Some("8000"), || ubig!(BD28 base 14), None),
    ("_35aa5 base 14", Some("20001"), || ubig!(_35aa5 base 14), Some((|| ibig!(_35aa5 base 14), || ibig!(-_35aa5 base 14)))),
    ("_35AA5 base 14", Some("20001"), || ubig!(_35AA5 base 14), None),
    ("_5b6b908c7 base 14", Some("1ffffffff"), || ubig!(_5b6b908c7 base 14), None),
    ("_5B6B908C7 base 14", Some("1ffffffff"), || ubig!(_5B6B908C7 base 14), Some((|| ibig!(_5B6B908C7 base 14), || ibig!(-_5B6B908C7 base 14)))),
    ("_4d71666758448 base 14", Some("1000000000000"), || ubig!(_4d71666758448 base 14), None),
    ("_4D71666758448 base 14", Some("1000000000000"), || ubig!(_4D71666758448 base 14), None),
    ("_8681049adb03db173 base 14", Some("10000000000000001"), || ubig!(_8681049adb03db173 base 14), Some((|| ibig!(_8681049adb03db173 base 14), || ibig!(-_8681049adb03db173 base 14)))),
    ("_8681049ADB03DB173 base 14", Some("10000000000000001"), || ubig!(_8681049ADB03DB173 base 14), None),
    ("_10640237523359a76d76a3 base 14", Some("ffffffffffffffffffff"), || ubig!(_10640237523359a76d76a3 base 14), None),
    ("_10640237523359A76D76A3 base 14", Some("ffffffffffffffffffff"), || ubig!(_10640237523359A76D76A3 base 14), Some((|| ibig!(_10640237523359A76D76A3 base 14), || ibig!(-_10640237523359A76D76A3 base 14)))),
    ("_1a914024d531ca82905643c0c8 base 14", Some("1000000000000000000000000"), || ubig!(_1a914024d531ca82905643c0c8 base 14), None),
    ("_1A914024D531CA82905643C0C8 base 14", Some("1000000000000000000000000"), || ubig!(_1A914024D531CA82905643C0C8 base 14), None),
    ("_27c22d5b9734a1517bb1dc612904a79d73 base 14", Some("80000000000000000000000000000001"), || ubig!(_27c22d5b9734a1517bb1dc612904a79d73 base 14), Some((|| ibig!(_27c22d5b9734a1517bb1dc612904a79d73 base 14), || ibig!(-_27c22d5b9734a1517bb1dc612904a79d73 base 14)))),
    ("_27C22D5B9734A1517BB1DC612904A79D73 base 14", Some("80000000000000000000000000000001"), || ubig!(_27C22D5B9734A1517BB1DC612904A79D73 base 14), None),
    ("_10cabbb10965c10c148bb6851202b7215a0d46d4db1 base 14", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_10cabbb10965c10c148bb6851202b7215a0d46d4db1 base 14), None),
    ("_10CABBB10965C10C148BB6851202B7215A0D46D4DB1 base 14", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_10CABBB10965C10C148BB6851202B7215A0D46D4DB1 base 14), Some((|| ibig!(_10CABBB10965C10C148BB6851202B7215A0D46D4DB1 base 14), || ibig!(-_10CABBB10965C10C148BB6851202B7215A0D46D4DB1 base 14)))),
    ("_d1b13301a0a468bb950ba315d952c2991c8906a6bd09c2386b46d9a01779c862a08 base 14", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_d1b13301a0a468bb950ba315d952c2991c8906a6bd09c2386b46d9a01779c862a08 base 14), None),
    ("_D1B13301A0A468BB950BA315D952C2991C8906A6BD09C2386B46D9A01779C862A08 base 14", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_D1B13301A0A468BB950BA315D952C2991C8906A6BD09C2386B46D9A01779C862A08 base 14), None),
    ("D1B13301A0A468BB950BA315D952C2991C8906A6BD09C2386B46D9A01779C862A08 base 14", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(D1B13301A0A468BB950BA315D952C2991C8906A6BD09C2386B46D9A01779C862A08 base 14), Some((|| ibig!(D1B13301A0A468BB950BA315D952C2991C8906A6BD09C2386B46D9A01779C862A08 base 14), || ibig!(-D1B13301A0A468BB950BA315D952C2991C8906A6BD09C2386B46D9A01779C862A08 base 14)))),
    ("_11c54c3dd2c99d40bc0a70ca79aac5158473578a60da0801d5dd3c158632030c0bd2d7136d99841396825 base 14", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_11c54c3dd2c99d40bc0a70ca79aac5158473578a60da0801d5dd3c158632030c0bd2d7136d99841396825 base 14), None),
    ("_11C54C3DD2C99D40BC0A70CA79AAC5158473578A60DA0801D5DD3C158632030C0BD2D7136D99841396825 base 14", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_11C54C3DD2C99D40BC0A70CA79AAC5158473578A60DA0801D5DD3C158632030C0BD2D7136D99841396825 base 14), None),
    ("_a39c869d213884d42600c6227985242d54a820113a2420206cb25c3417a base 14", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_a39c869d213884d42600c6227985242d54a820113a2420206cb25c3417a base 14), Some((|| ibig!(_a39c869d213884d42600c6227985242d54a820113a2420206cb25c3417a base 14), || ibig!(-_a39c869d213884d42600c6227985242d54a820113a2420206cb25c3417a base 14)))),
    ("_A39C869D213884D42600C6227985242D54A820113A2420206CB25C3417A base 14", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_A39C869D213884D42600C6227985242D54A820113A2420206CB25C3417A base 14), None),
    ("A39C869D213884D42600C6227985242D54A820113A2420206CB25C3417A base 14", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(A39C869D213884D42600C6227985242D54A820113A2420206CB25C3417A base 14), None),
    ("_1000000000000 base 14", Some("339014821000"), || ubig!(_1000000000000 base 14), Some((|| ibig!(_1000000000000 base 14), || ibig!(-_1000000000000 base 14)))),
    ("_dddddddddddddddddddddddddddddddddddddddd base 14", Some("139e862f1509ba9c74345f78771c0ffffffffff"), || ubig!(_dddddddddddddddddddddddddddddddddddddddd base 14), None),
    ("_DDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD base 14", Some("139e862f1509ba9c74345f78771c0ffffffffff"), || ubig!(_DDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD base 14), None),
    ("DDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD base 14", Some("139e862f1509ba9c74345f78771c0ffffffffff"), || ubig!(DDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD base 14), Some((|| ibig!(DDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD base 14), || ibig!(-DDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD base 14)))),
    ("_100000000000000000000000000000000000000000 base 14", Some("112ab56932688348e5add38968388e0000000000"), || ubig!(_100000000000000000000000000000000000000000 base 14), None),
    ("_1_0 base 14", None, || ubig!(_1_0 base 14), None),
    ("__1 base 14", None, || ubig!(__1 base 14), Some((|| ibig!(__1 base 14), || ibig!(-__1 base 14)))),
    ("1_0 base 14", None, || ubig!(1_0 base 14), None),
    ("_0 base 15", Some("0"), || ubig!(_0 base 15), None),
    ("0 base 15", Some("0"), || ubig!(0 base 15), Some((|| ibig!(0 base 15), || ibig!(-0 base 15)))),
    ("_1 base 15", Some("1"), || ubig!(_1 base 15), None),
    ("1 base 15", Some("1"), || ubig!(1 base 15), None),
    ("_7 base 15", Some("7"), || ubig!(_7 base 15), Some((|| ibig!(_7 base 15), || ibig!(-_7 base 15)))),
    ("7 base 15", Some("7"), || ubig!(7 base 15), None),
    ("_e base 15", Some("e"), || ubig!(_e base 15), None),
    ("e base 15", Some("e"), || ubig!(e base 15), Some((|| ibig!(e base 15), || ibig!(-e base 15)))),
    ("_f base 15", None, || ubig!(_f base 15), None),
    ("f base 15", None, || ubig!(f base 15), None),
    ("_00 base 15", Some("0"), || ubig!(_00 base 15), Some((|| ibig!(_00 base 15), || ibig!(-_00 base 15)))),
    ("00 base 15", Some("0"), || ubig!(00 base 15), None),
    ("_01 base 15", Some("1"), || ubig!(_01 base 15), None),
];
pub static PART19: &[Row] = &[
    ("01 base 15", Some("1"), || ubig!(01 base 15), Some((|| ibig!(01 base 15), || ibig!(-01 base 15)))),
    ("_07 base 15", Some("7"), || ubig!(_07 base 15), None),
    ("07 base 15", Some("7"), || ubig!(07 base 15), None),
    ("_0e base 15", Some("e"), || ubig!(_0e base 15), Some((|| ibig!(_0e base 15), || ibig!(-_0e base 15)))),
    ("_0f base 15", None, || ubig!(_0f base 15), None),
    ("_10 base 15", Some("f"), || ubig!(_10 base 15), None),
    ("10 base 15", Some("f"), || ubig!(10 base 15), Some((|| ibig!(10 base 15), || ibig!(-10 base 15)))),
    ("_11 base 15", Some("10"), || ubig!(_11 base 15), None),
    ("11 base 15", Some("10"), || ubig!(11 base 15), None),
    ("_17 base 15", Some("16"), || ubig!(_17 base 15), Some((|| ibig!(_17 base 15), || ibig!(-_17 base 15)))),
    ("17 base 15", Some("16"), || ubig!(17 base 15), None),
    ("_1e base 15", Some("1d"), || ubig!(_1e base 15), None),
    ("_1f base 15", None, || ubig!(_1f base 15), Some((|| ibig!(_1f base 15), || ibig!(-_1f base 15)))),
    ("_70 base 15", Some("69"), || ubig!(_70 base 15), None),
    ("70 base 15", Some("69"), || ubig!(70 base 15), None),
    ("_71 base 15", Some("6a"), || ubig!(_71 base 15), Some((|| ibig!(_71 base 15), || ibig!(-_71 base 15)))),
    ("71 base 15", Some("6a"), || ubig!(71 base 15), None),
    ("_77 base 15", Some("70"), || ubig!(_77 base 15), None),
    ("77 base 15", Some("70"), || ubig!(77 base 15), Some((|| ibig!(77 base 15), || ibig!(-77 base 15)))),
    ("_7e base 15", Some("77"), || ubig!(_7e base 15), None),
    ("_7f base 15", None, || ubig!(_7f base 15), None),
    ("_e0 base 15", Some("d2"), || ubig!(_e0 base 15), Some((|| ibig!(_e0 base 15), || ibig!(-_e0 base 15)))),
    ("e0 base 15", Some("d2"), || ubig!(e0 base 15), None),
    ("_e1 base 15", Some("d3"), || ubig!(_e1 base 15), None),
    ("e1 base 15", Some("d3"), || ubig!(e1 base 15), Some((|| ibig!(e1 base 15), || ibig!(-e1 base 15)))),
    ("_e7 base 15", Some("d9"), || ubig!(_e7 base 15), None),
    ("e7 base 15", Some("d9"), || ubig!(e7 base 15), None),
    ("_ee base 15", Some("e0"), || ubig!(_ee base 15), Some((|| ibig!(_ee base 15), || ibig!(-_ee base 15)))),
    ("ee base 15", Some("e0"), || ubig!(ee base 15), None),
    ("_ef base 15", None, || ubig!(_ef base 15), None),
    ("ef base 15", None, || ubig!(ef base 15), Some((|| ibig!(ef base 15), || ibig!(-ef base 15)))),
    ("_f0 base 15", None, || ubig!(_f0 base 15), None),
    ("f0 base 15", None, || ubig!(f0 base 15), None),
    ("_f1 base 15", None, || ubig!(_f1 base 15), Some((|| ibig!(_f1 base 15), || ibig!(-_f1 base 15)))),
    ("f1 base 15", None, || ubig!(f1 base 15), None),
    ("_f7 base 15", None, || ubig!(_f7 base 15), None),
    ("f7 base 15", None, || ubig!(f7 base 15), Some((|| ibig!(f7 base 15), || ibig!(-f7 base 15)))),
    ("_fe base 15", None, || ubig!(_fe base 15), None),
    ("fe base 15", None, || ubig!(fe base 15), None),
    ("_ff base 15", None, || ubig!(_ff base 15), Some((|| ibig!(_ff base 15), || ibig!(-_ff base 15)))),
    ("ff base 15", None, || ubig!(ff base 15), None),
    ("_87 base 15", Some("7f"), || ubig!(_87 base 15), None),
    ("_9a98 base 15", Some("8000"), || ubig!(_9a98 base 15), Some((|| ibig!(_9a98 base 15), || ibig!(-_9a98 base 15)))),
    ("_9A98 base 15", Some("8000"), || ubig!(_9A98 base 15), None),
    ("_28c83 base 15", Some("20001"), || ubig!(_28c83 base 15), None),
    ("_28C83 base 15", Some("20001"), || ubig!(_28C83 base 15), Some((|| ibig!(_28C83 base 15), || ibig!(-_28C83 base 15)))),
    ("_3541cac11 base 15", Some("1ffffffff"), || ubig!(_3541cac11 base 15), None),
    ("_3541CAC11 base 15", Some("1ffffffff"), || ubig!(_3541CAC11 base 15), None),
    ("_2281c240ee6c1 base 15", Some("1000000000000"), || ubig!(_2281c240ee6c1 base 15), Some((|| ibig!(_2281c240ee6c1 base 15), || ibig!(-_2281c240ee6c1 base 15)))),
    ("_2281C240EE6C1 base 15", Some("1000000000000"), || ubig!(_2281C240EE6C1 base 15), None),
    ("_2c1d56b648c6cd112 base 15", Some("10000000000000001"), || ubig!(_2c1d56b648c6cd112 base 15), None),
    ("_2C1D56B648C6CD112 base 15", Some("10000000000000001"), || ubig!(_2C1D56B648C6CD112 base 15), Some((|| ibig!(_2C1D56B648C6CD112 base 15), || ibig!(-_2C1D56B648C6CD112 base 15)))),
    ("_39801867ac6e4e571cb50 base 15", Some("ffffffffffffffffffff"), || ubig!(_39801867ac6e4e571cb50 base 15), None),
    ("_39801867AC6E4E571CB50 base 15", Some("ffffffffffffffffffff"), || ubig!(_39801867AC6E4E571CB50 base 15), None),
    ("_4a8e1bd0b192ea6e592672791 base 15", Some("1000000000000000000000000"), || ubig!(_4a8e1bd0b192ea6e592672791 base 15), Some((|| ibig!(_4a8e1bd0b192ea6e592672791 base 15), || ibig!(-_4a8e1bd0b192ea6e592672791 base 15)))),
    ("_4A8E1BD0B192EA6E592672791 base 15", Some("1000000000000000000000000"), || ubig!(_4A8E1BD0B192EA6E592672791 base 15), None),
    ("_3e2480b3404d8bb9bca3084369ba3e189 base 15", Some("80000000000000000000000000000001"), || ubig!(_3e2480b3404d8bb9bca3084369ba3e189 base 15), None),
    ("_3E2480B3404D8BB9BCA3084369BA3E189 base 15", Some("80000000000000000000000000000001"), || ubig!(_3E2480B3404D8BB9BCA3084369BA3E189 base 15), Some((|| ibig!(_3E2480B3404D8BB9BCA3084369BA3E189 base 15), || ibig!(-_3E2480B3404D8BB9BCA3084369BA3E189 base 15)))),
    ("_d33e055da9d8198a15c8e83c327990aea3b4c22a0 base 15", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_d33e055da9d8198a15c8e83c327990aea3b4c22a0 base 15), None),
    ("_D33E055DA9D8198A15C8E83C327990AEA3B4C22A0 base 15", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_D33E055DA9D8198A15C8E83C327990AEA3B4C22A0 base 15), None),
    ("D33E055DA9D8198A15C8E83C327990AEA3B4C22A0 base 15", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(D33E055DA9D8198A15C8E83C327990AEA3B4C22A0 base 15), Some((|| ibig!(D33E055DA9D8198A15C8E83C327990AEA3B4C22A0 base 15), || ibig!(-D33E055DA9D8198A15C8E83C327990AEA3B4C22A0 base 15)))),
    ("_2118413c0c8bb112454012e8ca6e4d1401a8849b2c7369de14c19474c87008bc98 base 15", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_2118413c0c8bb112454012e8ca6e4d1401a8849b2c7369de14c19474c87008bc98 base 15), None),
    ("_2118413C0C8BB112454012E8CA6E4D1401A8849B2C7369DE14C19474C87008BC98 base 15", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_2118413C0C8BB112454012E8CA6E4D1401A8849B2C7369DE14C19474C87008BC98 base 15), None),
    ("_b9a7e3e9e61366cd6e7a600113049be858d560adb0e53e3c4339451b85a1da8d4d16574da4165b6052 base 15", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_b9a7e3e9e61366cd6e7a600113049be858d560adb0e53e3c4339451b85a1da8d4d16574da4165b6052 base 15), Some((|| ibig!(_b9a7e3e9e61366cd6e7a600113049be858d560adb0e53e3c4339451b85a1da8d4d16574da4165b6052 base 15), || ibig!(-_b9a7e3e9e61366cd6e7a600113049be858d560adb0e53e3c4339451b85a1da8d4d16574da4165b6052 base 15)))),
    ("_B9A7E3E9E61366CD6E7A600113049BE858D560ADB0E53E3C4339451B85A1DA8D4D16574DA4165B6052 base 15", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_B9A7E3E9E61366CD6E7A600113049BE858D560ADB0E53E3C4339451B85A1DA8D4D16574DA4165B6052 base 15), None),
    ("B9A7E3E9E61366CD6E7A600113049BE858D560ADB0E53E3C4339451B85A1DA8D4D16574DA4165B6052 base 15", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(B9A7E3E9E61366CD6E7A600113049BE858D560ADB0E53E3C4339451B85A1DA8D4D16574DA4165B6052 base 15), None),
    ("_2c37aeadb392cccd4293694a3783db909bbb265b3795bae48961d46710 base 15", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_2c37aeadb392cccd4293694a3783db909bbb265b3795bae48961d46710 base 15), Some((|| ibig!(_2c37aeadb392cccd4293694a3783db909bbb265b3795bae48961d46710 base 15), || ibig!(-_2c37aeadb392cccd4293694a3783db909bbb265b3795bae48961d46710 base 15)))),
    ("_2C37AEADB392CCCD4293694A3783DB909BBB265B3795BAE48961D46710 base 15", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_2C37AEADB392CCCD4293694A3783DB909BBB265B3795BAE48961D46710 base 15), None),
    ("_1000000000000 base 15", Some("7600ec618141"), || ubig!(_1000000000000 base 15), None),
    ("_eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee base 15", Some("135e477ff5f32ee15e5500a491c65138e9178980"), || ubig!(_eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee base 15), Some((|| ibig!(_eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee base 15), || ibig!(-_eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee base 15)))),
    ("_EEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE base 15", Some("135e477ff5f32ee15e5500a491c65138e9178980"), || ubig!(_EEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE base 15), None),
    ("EEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE base 15", Some("135e477ff5f32ee15e5500a491c65138e9178980"), || ubig!(EEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE base 15), None),
    ("_100000000000000000000000000000000000000000 base 15", Some("12286307f693fbf3486fb09a48a9ec255a8610e8f"), || ubig!(_100000000000000000000000000000000000000000 base 15), Some((|| ibig!(_100000000000000000000000000000000000000000 base 15), || ibig!(-_100000000000000000000000000000000000000000 base 15)))),
    ("_1_0 base 15", None, || ubig!(_1_0 base 15), None),
    ("__1 base 15", None, || ubig!(__1 base 15), None),
    ("1_0 base 15", None, || ubig!(1_0 base 15), Some((|| ibig!(1_0 base 15), || ibig!(-1_0 base 15)))),
    ("_0 base 16", Some("0"), || ubig!(_0 base 16), None),
    ("0 base 16", Some("0"), || ubig!(0 base 16), None),
    ("_1 base 16", Some("1"), || ubig!(_1 base 16), Some((|| ibig!(_1 base 16), || ibig!(-_1 base 16)))),
    ("1 base 16", Some("1"), || ubig!(1 base 16), None),
    ("_8 base 16", Some("8"), || ubig!(_8 base 16), None),
    ("8 base 16", Some("8"), || ubig!(8 base 16), Some((|| ibig!(8 base 16), || ibig!(-8 base 16)))),
    ("_f base 16", Some("f"), || ubig!(_f base 16), None),
    ("f base 16", Some("f"), || ubig!(f base 16), None),
    ("_g base 16", None, || ubig!(_g base 16), Some((|| ibig!(_g base 16), || ibig!(-_g base 16)))),
    ("g base 16", None, || ubig!(g base 16), None),
    ("_00 base 16", Some("0"), || ubig!(_00 base 16), None),
    ("00 base 16", Some("0"), || ubig!(00 base 16), Some((|| ibig!(00 base 16), || ibig!(-00 base 16)))),
    ("_01 base 16", Some("1"), || ubig!(_01 base 16), None),
    ("01 base 16", Some("1"), || ubig!(01 base 16), None),
    ("_08 base 16", Some("8"), || ubig!(_08 base 16), Some((|| ibig!(_08 base 16), || ibig!(-_08 base 16)))),
    ("08 base 16", Some("8"), || ubig!(08 base 16), None),
    ("_0f base 16", Some("f"), || ubig!(_0f base 16), None),
    ("_0g base 16", None, || ubig!(_0g base 16), Some((|| ibig!(_0g base 16), || ibig!(-_0g base 16)))),
    ("_10 base 16", Some("10"), || ubig!(_10 base 16), None),
    ("10 base 16", Some("10"), || ubig!(10 base 16), None),
    ("_11 base 16", Some("11"), || ubig!(_11 base 16), Some((|| ibig!(_11 base 16), || ibig!(-_11 base 16)))),
    ("11 base 16", Some("11"), || ubig!(11 base 16), None),
    ("_18 base 16", Some("18"), || ubig!(_18 base 16), None),
    ("18 base 16", Some("18"), || ubig!(18 base 16), Some((|| ibig!(18 base 16), || ibig!(-18 base 16)))),
    ("_1f base 16", Some("1f"), || ubig!(_1f base 16), None),
    ("_1g base 16", None, || ubig!(_1g base 16), None),
    ("_80 base 16", Some("80"), || ubig!(_80 base 16), Some((|| ibig!(_80 base 16), || ibig!(-_80 base 16)))),
    ("80 base 16", Some("80"), || ubig!(80 base 16), None),
    ("_81 base 16", Some("81"), || ubig!(_81 base 16), None),
    ("81 base 16", Some("81"), || ubig!(81 base 16), Some((|| ibig!(81 base 16), || ibig!(-81 base 16)))),
    ("_88 base 16", Some("88"), || ubig!(_88 base 16), None),
    ("88 base 16", Some("88"), || ubig!(88 base 16), None),
    ("_8f base 16", Some("8f"), || ubig!(_8f base 16), Some((|| ibig!(_8f base 16), || ibig!(-_8f base 16)))),
    ("_8g base 16", None, || ubig!(_8g base 16), None),
    ("_f0 base 16", Some("f0"), || ubig!(_f0 base 16), None),
    ("f0 base 16", Some("f0"), || ubig!(f0 base 16), Some((|| ibig!(f0 base 16), || ibig!(-f0 base 16)))),
    ("_f1 base 16", Some("f1"), || ubig!(_f1 base 16), None),
    ("f1 base 16", Some("f1"), || ubig!(f1 base 16), None),
    ("_f8 base 16", Some("f8"), || ubig!(_f8 base 16), Some((|| ibig!(_f8 base 16), || ibig!(-_f8 base 16)))),
    ("f8 base 16", Some("f8"), || ubig!(f8 base 16), None),
    ("_ff base 16", Some("ff"), || ubig!(_ff base 16), None),
    ("ff base 16", Some("ff"), || ubig!(ff base 16), Some((|| ibig!(ff base 16), || ibig!(-ff base 16)))),
    ("_fg base 16", None, || ubig!(_fg base 16), None),
    ("fg base 16", None, || ubig!(fg base 16), None),
    ("_g0 base 16", None, || ubig!(_g0 base 16), Some((|| ibig!(_g0 base 16), || ibig!(-_g0 base 16)))),
    ("g0 base 16", None, || ubig!(g0 base 16), None),
    ("_g1 base 16", None, || ubig!(_g1 base 16), None),
    ("g1 base 16", None, || ubig!(g1 base 16), Some((|| ibig!(g1 base 16), || ibig!(-g1 base 16)))),
    ("_g8 base 16", None, || ubig!(_g8 base 16), None),
    ("g8 base 16", None, || ubig!(g8 base 16), None),
    ("_gf base 16", None, || ubig!(_gf base 16), Some((|| ibig!(_gf base 16), || ibig!(-_gf base 16)))),
    ("gf base 16", None, || ubig!(gf base 16), None),
    ("_gg base 16", None, || ubig!(_gg base 16), None),
    ("gg base 16", None, || ubig!(gg base 16), Some((|| ibig!(gg base 16), || ibig!(-gg base 16)))),
    ("_000 base 16", Some("0"), || ubig!(_000 base 16), None),
    ("000 base 16", Some("0"), || ubig!(000 base 16), None),
    ("_001 base 16", Some("1"), || ubig!(_001 base 16), Some((|| ibig!(_001 base 16), || ibig!(-_001 base 16)))),
    ("001 base 16", Some("1"), || ubig!(001 base 16), None),
    ("_008 base 16", Some("8"), || ubig!(_008 base 16), None),
    ("008 base 16", Some("8"), || ubig!(008 base 16), Some((|| ibig!(008 base 16), || ibig!(-008 base 16)))),
    ("_00f base 16", Some("f"), || ubig!(_00f base 16), None),
    ("_00g base 16", None, || ubig!(_00g base 16), None),
    ("_010 base 16", Some("10"), || ubig!(_010 base 16), Some((|| ibig!(_010 base 16), || ibig!(-_010 base 16)))),
    ("010 base 16", Some("10"), || ubig!(010 base 16), None),
    ("_011 base 16", Some("11"), || ubig!(_011 base 16), None),
    ("011 base 16", Some("11"), || ubig!(011 base 16), Some((|| ibig!(011 base 16), || ibig!(-011 base 16)))),
    ("_018 base 16", Some("18"), || ubig!(_018 base 16), None),
    ("018 base 16", Some("18"), || ubig!(018 base 16), None),
    ("_01f base 16", Some("1f"), || ubig!(_01f base 16), Some((|| ibig!(_01f base 16), || ibig!(-_01f base 16)))),
    ("_01g base 16", None, || ubig!(_01g base 16), None),
    ("_080 base 16", Some("80"), || ubig!(_080 base 16), None),
    ("080 base 16", Some("80"), || ubig!(080 base 16), Some((|| ibig!(080 base 16), || ibig!(-080 base 16)))),
    ("_081 base 16", Some("81"), || ubig!(_081 base 16), None),
    ("081 base 16", Some("81"), || ubig!(081 base 16), None),
];
pub static PART20: &[Row] = &[
    ("_088 base 16", Some("88"), || ubig!(_088 base 16), Some((|| ibig!(_088 base 16), || ibig!(-_088 base 16)))),
    ("088 base 16", Some("88"), || ubig!(088 base 16), None),
    ("_08f base 16", Some("8f"), || ubig!(_08f base 16), None),
    ("_08g base 16", None, || ubig!(_08g base 16), Some((|| ibig!(_08g base 16), || ibig!(-_08g base 16)))),
    ("_0f0 base 16", Some("f0"), || ubig!(_0f0 base 16), None),
    ("_0f1 base 16", Some("f1"), || ubig!(_0f1 base 16), None),
    ("_0f8 base 16", Some("f8"), || ubig!(_0f8 base 16), Some((|| ibig!(_0f8 base 16), || ibig!(-_0f8 base 16)))),
    ("_0ff base 16", Some("ff"), || ubig!(_0ff base 16), None),
    ("_0fg base 16", None, || ubig!(_0fg base 16), None),
    ("_0g0 base 16", None, || ubig!(_0g0 base 16), Some((|| ibig!(_0g0 base 16), || ibig!(-_0g0 base 16)))),
    ("_0g1 base 16", None, || ubig!(_0g1 base 16), None),
    ("_0g8 base 16", None, || ubig!(_0g8 base 16), None),
    ("_0gf base 16", None, || ubig!(_0gf base 16), Some((|| ibig!(_0gf base 16), || ibig!(-_0gf base 16)))),
    ("_0gg base 16", None, || ubig!(_0gg base 16), None),
    ("_100 base 16", Some("100"), || ubig!(_100 base 16), None),
    ("100 base 16", Some("100"), || ubig!(100 base 16), Some((|| ibig!(100 base 16), || ibig!(-100 base 16)))),
    ("_101 base 16", Some("101"), || ubig!(_101 base 16), None),
    ("101 base 16", Some("101"), || ubig!(101 base 16), None),
    ("_108 base 16", Some("108"), || ubig!(_108 base 16), Some((|| ibig!(_108 base 16), || ibig!(-_108 base 16)))),
    ("108 base 16", Some("108"), || ubig!(108 base 16), None),
    ("_10f base 16", Some("10f"), || ubig!(_10f base 16), None),
    ("_10g base 16", None, || ubig!(_10g base 16), Some((|| ibig!(_10g base 16), || ibig!(-_10g base 16)))),
    ("_110 base 16", Some("110"), || ubig!(_110 base 16), None),
    ("110 base 16", Some("110"), || ubig!(110 base 16), None),
    ("_111 base 16", Some("111"), || ubig!(_111 base 16), Some((|| ibig!(_111 base 16), || ibig!(-_111 base 16)))),
    ("111 base 16", Some("111"), || ubig!(111 base 16), None),
    ("_118 base 16", Some("118"), || ubig!(_118 base 16), None),
    ("118 base 16", Some("118"), || ubig!(118 base 16), Some((|| ibig!(118 base 16), || ibig!(-118 base 16)))),
    ("_11f base 16", Some("11f"), || ubig!(_11f base 16), None),
    ("_11g base 16", None, || ubig!(_11g base 16), None),
    ("_180 base 16", Some("180"), || ubig!(_180 base 16), Some((|| ibig!(_180 base 16), || ibig!(-_180 base 16)))),
    ("180 base 16", Some("180"), || ubig!(180 base 16), None),
    ("_181 base 16", Some("181"), || ubig!(_181 base 16), None),
    ("181 base 16", Some("181"), || ubig!(181 base 16), Some((|| ibig!(181 base 16), || ibig!(-181 base 16)))),
    ("_188 base 16", Some("188"), || ubig!(_188 base 16), None),
    ("188 base 16", Some("188"), || ubig!(188 base 16), None),
    ("_18f base 16", Some("18f"), || ubig!(_18f base 16), Some((|| ibig!(_18f base 16), || ibig!(-_18f base 16)))),
    ("_18g base 16", None, || ubig!(_18g base 16), None),
    ("_1f0 base 16", Some("1f0"), || ubig!(_1f0 base 16), None),
    ("_1f1 base 16", Some("1f1"), || ubig!(_1f1 base 16), Some((|| ibig!(_1f1 base 16), || ibig!(-_1f1 base 16)))),
    ("_1f8 base 16", Some("1f8"), || ubig!(_1f8 base 16), None),
    ("_1ff base 16", Some("1ff"), || ubig!(_1ff base 16), None),
    ("_1fg base 16", None, || ubig!(_1fg base 16), Some((|| ibig!(_1fg base 16), || ibig!(-_1fg base 16)))),
    ("_1g0 base 16", None, || ubig!(_1g0 base 16), None),
    ("_1g1 base 16", None, || ubig!(_1g1 base 16), None),
    ("_1g8 base 16", None, || ubig!(_1g8 base 16), Some((|| ibig!(_1g8 base 16), || ibig!(-_1g8 base 16)))),
    ("_1gf base 16", None, || ubig!(_1gf base 16), None),
    ("_1gg base 16", None, || ubig!(_1gg base 16), None),
    ("_800 base 16", Some("800"), || ubig!(_800 base 16), Some((|| ibig!(_800 base 16), || ibig!(-_800 base 16)))),
    ("800 base 16", Some("800"), || ubig!(800 base 16), None),
    ("_801 base 16", Some("801"), || ubig!(_801 base 16), None),
    ("801 base 16", Some("801"), || ubig!(801 base 16), Some((|| ibig!(801 base 16), || ibig!(-801 base 16)))),
    ("_808 base 16", Some("808"), || ubig!(_808 base 16), None),
    ("808 base 16", Some("808"), || ubig!(808 base 16), None),
    ("_80f base 16", Some("80f"), || ubig!(_80f base 16), Some((|| ibig!(_80f base 16), || ibig!(-_80f base 16)))),
    ("_80g base 16", None, || ubig!(_80g base 16), None),
    ("_810 base 16", Some("810"), || ubig!(_810 base 16), None),
    ("810 base 16", Some("810"), || ubig!(810 base 16), Some((|| ibig!(810 base 16), || ibig!(-810 base 16)))),
    ("_811 base 16", Some("811"), || ubig!(_811 base 16), None),
    ("811 base 16", Some("811"), || ubig!(811 base 16), None),
    ("_818 base 16", Some("818"), || ubig!(_818 base 16), Some((|| ibig!(_818 base 16), || ibig!(-_818 base 16)))),
    ("818 base 16", Some("818"), || ubig!(818 base 16), None),
    ("_81f base 16", Some("81f"), || ubig!(_81f base 16), None),
    ("_81g base 16", None, || ubig!(_81g base 16), Some((|| ibig!(_81g base 16), || ibig!(-_81g base 16)))),
    ("_880 base 16", Some("880"), || ubig!(_880 base 16), None),
    ("880 base 16", Some("880"), || ubig!(880 base 16), None),
    ("_881 base 16", Some("881"), || ubig!(_881 base 16), Some((|| ibig!(_881 base 16), || ibig!(-_881 base 16)))),
    ("881 base 16", Some("881"), || ubig!(881 base 16), None),
    ("_888 base 16", Some("888"), || ubig!(_888 base 16), None),
    ("888 base 16", Some("888"), || ubig!(888 base 16), Some((|| ibig!(888 base 16), || ibig!(-888 base 16)))),
    ("_88f base 16", Some("88f"), || ubig!(_88f base 16), None),
    ("_88g base 16", None, || ubig!(_88g base 16), None),
    ("_8f0 base 16", Some("8f0"), || ubig!(_8f0 base 16), Some((|| ibig!(_8f0 base 16), || ibig!(-_8f0 base 16)))),
    ("_8f1 base 16", Some("8f1"), || ubig!(_8f1 base 16), None),
    ("_8f8 base 16", Some("8f8"), || ubig!(_8f8 base 16), None),
    ("_8ff base 16", Some("8ff"), || ubig!(_8ff base 16), Some((|| ibig!(_8ff base 16), || ibig!(-_8ff base 16)))),
    ("_8fg base 16", None, || ubig!(_8fg base 16), None),
    ("_8g0 base 16", None, || ubig!(_8g0 base 16), None),
    ("_8g1 base 16", None, || ubig!(_8g1 base 16), Some((|| ibig!(_8g1 base 16), || ibig!(-_8g1 base 16)))),
    ("_8g8 base 16", None, || ubig!(_8g8 base 16), None),
    ("_8gf base 16", None, || ubig!(_8gf base 16), None),
    ("_8gg base 16", None, || ubig!(_8gg base 16), Some((|| ibig!(_8gg base 16), || ibig!(-_8gg base 16)))),
    ("_f00 base 16", Some("f00"), || ubig!(_f00 base 16), None),
    ("f00 base 16", Some("f00"), || ubig!(f00 base 16), None),
    ("_f01 base 16", Some("f01"), || ubig!(_f01 base 16), Some((|| ibig!(_f01 base 16), || ibig!(-_f01 base 16)))),
    ("f01 base 16", Some("f01"), || ubig!(f01 base 16), None),
    ("_f08 base 16", Some("f08"), || ubig!(_f08 base 16), None),
    ("f08 base 16", Some("f08"), || ubig!(f08 base 16), Some((|| ibig!(f08 base 16), || ibig!(-f08 base 16)))),
    ("_f0f base 16", Some("f0f"), || ubig!(_f0f base 16), None),
    ("f0f base 16", Some("f0f"), || ubig!(f0f base 16), None),
    ("_f0g base 16", None, || ubig!(_f0g base 16), Some((|| ibig!(_f0g base 16), || ibig!(-_f0g base 16)))),
    ("f0g base 16", None, || ubig!(f0g base 16), None),
    ("_f10 base 16", Some("f10"), || ubig!(_f10 base 16), None),
    ("f10 base 16", Some("f10"), || ubig!(f10 base 16), Some((|| ibig!(f10 base 16), || ibig!(-f10 base 16)))),
    ("_f11 base 16", Some("f11"), || ubig!(_f11 base 16), None),
    ("f11 base 16", Some("f11"), || ubig!(f11 base 16), None),
    ("_f18 base 16", Some("f18"), || ubig!(_f18 base 16), Some((|| ibig!(_f18 base 16), || ibig!(-_f18 base 16)))),
    ("f18 base 16", Some("f18"), || ubig!(f18 base 16), None),
    ("_f1f base 16", Some("f1f"), || ubig!(_f1f base 16), None),
    ("f1f base 16", Some("f1f"), || ubig!(f1f base 16), Some((|| ibig!(f1f base 16), || ibig!(-f1f base 16)))),
    ("_f1g base 16", None, || ubig!(_f1g base 16), None),
    ("f1g base 16", None, || ubig!(f1g base 16), None),
    ("_f80 base 16", Some("f80"), || ubig!(_f80 base 16), Some((|| ibig!(_f80 base 16), || ibig!(-_f80 base 16)))),
    ("f80 base 16", Some("f80"), || ubig!(f80 base 16), None),
    ("_f81 base 16", Some("f81"), || ubig!(_f81 base 16), None),
    ("f81 base 16", Some("f81"), || ubig!(f81 base 16), Some((|| ibig!(f81 base 16), || ibig!(-f81 base 16)))),
    ("_f88 base 16", Some("f88"), || ubig!(_f88 base 16), None),
    ("f88 base 16", Some("f88"), || ubig!(f88 base 16), None),
    ("_f8f base 16", Some("f8f"), || ubig!(_f8f base 16), Some((|| ibig!(_f8f base 16), || ibig!(-_f8f base 16)))),
    ("f8f base 16", Some("f8f"), || ubig!(f8f base 16), None),
    ("_f8g base 16", None, || ubig!(_f8g base 16), None),
    ("f8g base 16", None, || ubig!(f8g base 16), Some((|| ibig!(f8g base 16), || ibig!(-f8g base 16)))),
    ("_ff0 base 16", Some("ff0"), || ubig!(_ff0 base 16), None),
    ("ff0 base 16", Some("ff0"), || ubig!(ff0 base 16), None),
    ("_ff1 base 16", Some("ff1"), || ubig!(_ff1 base 16), Some((|| ibig!(_ff1 base 16), || ibig!(-_ff1 base 16)))),
    ("ff1 base 16", Some("ff1"), || ubig!(ff1 base 16), None),
    ("_ff8 base 16", Some("ff8"), || ubig!(_ff8 base 16), None),
    ("ff8 base 16", Some("ff8"), || ubig!(ff8 base 16), Some((|| ibig!(ff8 base 16), || ibig!(-ff8 base 16)))),
    ("_fff base 16", Some("fff"), || ubig!(_fff base 16), None),
    ("fff base 16", Some("fff"), || ubig!(fff base 16), None),
    ("_ffg base 16", None, || ubig!(_ffg base 16), Some((|| ibig!(_ffg base 16), || ibig!(-_ffg base 16)))),
    ("ffg base 16", None, || ubig!(ffg base 16), None),
    ("_fg0 base 16", None, || ubig!(_fg0 base 16), None),
    ("fg0 base 16", None, || ubig!(fg0 base 16), Some((|| ibig!(fg0 base 16), || ibig!(-fg0 base 16)))),
    ("_fg1 base 16", None, || ubig!(_fg1 base 16), None),
    ("fg1 base 16", None, || ubig!(fg1 base 16), None),
    ("_fg8 base 16", None, || ubig!(_fg8 base 16), Some((|| ibig!(_fg8 base 16), || ibig!(-_fg8 base 16)))),
    ("fg8 base 16", None, || ubig!(fg8 base 16), None),
    ("_fgf base 16", None, || ubig!(_fgf base 16), None),
    ("fgf base 16", None, || ubig!(fgf base 16), Some((|| ibig!(fgf base 16), || ibig!(-fgf base 16)))),
    ("_fgg base 16", None, || ubig!(_fgg base 16), None),
    ("fgg base 16", None, || ubig!(fgg base 16), None),
    ("_g00 base 16", None, || ubig!(_g00 base 16), Some((|| ibig!(_g00 base 16), || ibig!(-_g00 base 16)))),
    ("g00 base 16", None, || ubig!(g00 base 16), None),
    ("_g01 base 16", None, || ubig!(_g01 base 16), None),
    ("g01 base 16", None, || ubig!(g01 base 16), Some((|| ibig!(g01 base 16), || ibig!(-g01 base 16)))),
    ("_g08 base 16", None, || ubig!(_g08 base 16), None),
    ("g08 base 16", None, || ubig!(g08 base 16), None),
    ("_g0f base 16", None, || ubig!(_g0f base 16), Some((|| ibig!(_g0f base 16), || ibig!(-_g0f base 16)))),
    ("g0f base 16", None, || ubig!(g0f base 16), None),
    ("_g0g base 16", None, || ubig!(_g0g base 16), None),
    ("g0g base 16", None, || ubig!(g0g base 16), Some((|| ibig!(g0g base 16), || ibig!(-g0g base 16)))),
    ("_g10 base 16", None, || ubig!(_g10 base 16), None),
    ("g10 base 16", None, || ubig!(g10 base 16), None),
    ("_g11 base 16", None, || ubig!(_g11 base 16), Some((|| ibig!(_g11 base 16), || ibig!(-_g11 base 16)))),
    ("g11 base 16", None, || ubig!(g11 base 16), None),
    ("_g18 base 16", None, || ubig!(_g18 base 16), None),
    ("g18 base 16", None, || ubig!(g18 base 16), Some((|| ibig!(g18 base 16), || ibig!(-g18 base 16)))),
    ("_g1f base 16", None, || ubig!(_g1f base 16), None),
    ("g1f base 16", None, || ubig!(g1f base 16), None),
];
pub static PART21: &[Row] = &[
    ("_g1g base 16", None, || ubig!(_g1g base 16), Some((|| ibig!(_g1g base 16), || ibig!(-_g1g base 16)))),
    ("g1g base 16", None, || ubig!(g1g base 16), None),
    ("_g80 base 16", None, || ubig!(_g80 base 16), None),
    ("g80 base 16", None, || ubig!(g80 base 16), Some((|| ibig!(g80 base 16), || ibig!(-g80 base 16)))),
    ("_g81 base 16", None, || ubig!(_g81 base 16), None),
    ("g81 base 16", None, || ubig!(g81 base 16), None),
    ("_g88 base 16", None, || ubig!(_g88 base 16), Some((|| ibig!(_g88 base 16), || ibig!(-_g88 base 16)))),
    ("g88 base 16", None, || ubig!(g88 base 16), None),
    ("_g8f base 16", None, || ubig!(_g8f base 16), None),
    ("g8f base 16", None, || ubig!(g8f base 16), Some((|| ibig!(g8f base 16), || ibig!(-g8f base 16)))),
    ("_g8g base 16", None, || ubig!(_g8g base 16), None),
    ("g8g base 16", None, || ubig!(g8g base 16), None),
    ("_gf0 base 16", None, || ubig!(_gf0 base 16), Some((|| ibig!(_gf0 base 16), || ibig!(-_gf0 base 16)))),
    ("gf0 base 16", None, || ubig!(gf0 base 16), None),
    ("_gf1 base 16", None, || ubig!(_gf1 base 16), None),
    ("gf1 base 16", None, || ubig!(gf1 base 16), Some((|| ibig!(gf1 base 16), || ibig!(-gf1 base 16)))),
    ("_gf8 base 16", None, || ubig!(_gf8 base 16), None),
    ("gf8 base 16", None, || ubig!(gf8 base 16), None),
    ("_gff base 16", None, || ubig!(_gff base 16), Some((|| ibig!(_gff base 16), || ibig!(-_gff base 16)))),
    ("gff base 16", None, || ubig!(gff base 16), None),
    ("_gfg base 16", None, || ubig!(_gfg base 16), None),
    ("gfg base 16", None, || ubig!(gfg base 16), Some((|| ibig!(gfg base 16), || ibig!(-gfg base 16)))),
    ("_gg0 base 16", None, || ubig!(_gg0 base 16), None),
    ("gg0 base 16", None, || ubig!(gg0 base 16), None),
    ("_gg1 base 16", None, || ubig!(_gg1 base 16), Some((|| ibig!(_gg1 base 16), || ibig!(-_gg1 base 16)))),
    ("gg1 base 16", None, || ubig!(gg1 base 16), None),
    ("_gg8 base 16", None, || ubig!(_gg8 base 16), None),
    ("gg8 base 16", None, || ubig!(gg8 base 16), Some((|| ibig!(gg8 base 16), || ibig!(-gg8 base 16)))),
    ("_ggf base 16", None, || ubig!(_ggf base 16), None),
    ("ggf base 16", None, || ubig!(ggf base 16), None),
    ("_ggg base 16", None, || ubig!(_ggg base 16), Some((|| ibig!(_ggg base 16), || ibig!(-_ggg base 16)))),
    ("ggg base 16", None, || ubig!(ggg base 16), None),
    ("_7f base 16", Some("7f"), || ubig!(_7f base 16), None),
    ("_7F base 16", Some("7f"), || ubig!(_7F base 16), Some((|| ibig!(_7F base 16), || ibig!(-_7F base 16)))),
    ("_8000 base 16", Some("8000"), || ubig!(_8000 base 16), None),
    ("_20001 base 16", Some("20001"), || ubig!(_20001 base 16), None),
    ("_1ffffffff base 16", Some("1ffffffff"), || ubig!(_1ffffffff base 16), Some((|| ibig!(_1ffffffff base 16), || ibig!(-_1ffffffff base 16)))),
    ("_1FFFFFFFF base 16", Some("1ffffffff"), || ubig!(_1FFFFFFFF base 16), None),
    ("_1000000000000 base 16", Some("1000000000000"), || ubig!(_1000000000000 base 16), None),
    ("_10000000000000001 base 16", Some("10000000000000001"), || ubig!(_10000000000000001 base 16), Some((|| ibig!(_10000000000000001 base 16), || ibig!(-_10000000000000001 base 16)))),
    ("_ffffffffffffffffffff base 16", Some("ffffffffffffffffffff"), || ubig!(_ffffffffffffffffffff base 16), None),
    ("_FFFFFFFFFFFFFFFFFFFF base 16", Some("ffffffffffffffffffff"), || ubig!(_FFFFFFFFFFFFFFFFFFFF base 16), None),
    ("FFFFFFFFFFFFFFFFFFFF base 16", Some("ffffffffffffffffffff"), || ubig!(FFFFFFFFFFFFFFFFFFFF base 16), Some((|| ibig!(FFFFFFFFFFFFFFFFFFFF base 16), || ibig!(-FFFFFFFFFFFFFFFFFFFF base 16)))),
    ("_1000000000000000000000000 base 16", Some("1000000000000000000000000"), || ubig!(_1000000000000000000000000 base 16), None),
    ("_80000000000000000000000000000001 base 16", Some("80000000000000000000000000000001"), || ubig!(_80000000000000000000000000000001 base 16), None),
    ("_ffffffffffffffffffffffffffffffffffffffff base 16", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_ffffffffffffffffffffffffffffffffffffffff base 16), Some((|| ibig!(_ffffffffffffffffffffffffffffffffffffffff base 16), || ibig!(-_ffffffffffffffffffffffffffffffffffffffff base 16)))),
    ("_FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF base 16", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF base 16), None),
    ("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF base 16", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF base 16), None),
    ("_8000000000000000000000000000000000000000000000000000000000000000 base 16", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_8000000000000000000000000000000000000000000000000000000000000000 base 16), Some((|| ibig!(_8000000000000000000000000000000000000000000000000000000000000000 base 16), || ibig!(-_8000000000000000000000000000000000000000000000000000000000000000 base 16)))),
    ("_100000000000000000000000000000000000000000000000000000000000000000000000000000001 base 16", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_100000000000000000000000000000000000000000000000000000000000000000000000000000001 base 16), None),
    ("_123456789abcdef0fedcba98765432100000000000000000000000000 base 16", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_123456789abcdef0fedcba98765432100000000000000000000000000 base 16), None),
    ("_123456789ABCDEF0FEDCBA98765432100000000000000000000000000 base 16", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_123456789ABCDEF0FEDCBA98765432100000000000000000000000000 base 16), Some((|| ibig!(_123456789ABCDEF0FEDCBA98765432100000000000000000000000000 base 16), || ibig!(-_123456789ABCDEF0FEDCBA98765432100000000000000000000000000 base 16)))),
    ("_100000000000000000000000000000000000000000 base 16", Some("100000000000000000000000000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 16), None),
    ("_1_0 base 16", None, || ubig!(_1_0 base 16), None),
    ("__1 base 16", None, || ubig!(__1 base 16), Some((|| ibig!(__1 base 16), || ibig!(-__1 base 16)))),
    ("1_0 base 16", None, || ubig!(1_0 base 16), None),
    ("_0 base 17", Some("0"), || ubig!(_0 base 17), None),
    ("0 base 17", Some("0"), || ubig!(0 base 17), Some((|| ibig!(0 base 17), || ibig!(-0 base 17)))),
    ("_1 base 17", Some("1"), || ubig!(_1 base 17), None),
    ("1 base 17", Some("1"), || ubig!(1 base 17), None),
    ("_8 base 17", Some("8"), || ubig!(_8 base 17), Some((|| ibig!(_8 base 17), || ibig!(-_8 base 17)))),
    ("8 base 17", Some("8"), || ubig!(8 base 17), None),
    ("_g base 17", Some("10"), || ubig!(_g base 17), None),
    ("g base 17", Some("10"), || ubig!(g base 17), Some((|| ibig!(g base 17), || ibig!(-g base 17)))),
    ("_h base 17", None, || ubig!(_h base 17), None),
    ("h base 17", None, || ubig!(h base 17), None),
    ("_00 base 17", Some("0"), || ubig!(_00 base 17), Some((|| ibig!(_00 base 17), || ibig!(-_00 base 17)))),
    ("00 base 17", Some("0"), || ubig!(00 base 17), None),
    ("_01 base 17", Some("1"), || ubig!(_01 base 17), None),
    ("01 base 17", Some("1"), || ubig!(01 base 17), Some((|| ibig!(01 base 17), || ibig!(-01 base 17)))),
    ("_08 base 17", Some("8"), || ubig!(_08 base 17), None),
    ("08 base 17", Some("8"), || ubig!(08 base 17), None),
    ("_0g base 17", Some("10"), || ubig!(_0g base 17), Some((|| ibig!(_0g base 17), || ibig!(-_0g base 17)))),
    ("_0h base 17", None, || ubig!(_0h base 17), None),
    ("_10 base 17", Some("11"), || ubig!(_10 base 17), None),
    ("10 base 17", Some("11"), || ubig!(10 base 17), Some((|| ibig!(10 base 17), || ibig!(-10 base 17)))),
    ("_11 base 17", Some("12"), || ubig!(_11 base 17), None),
    ("11 base 17", Some("12"), || ubig!(11 base 17), None),
    ("_18 base 17", Some("19"), || ubig!(_18 base 17), Some((|| ibig!(_18 base 17), || ibig!(-_18 base 17)))),
    ("18 base 17", Some("19"), || ubig!(18 base 17), None),
    ("_1g base 17", Some("21"), || ubig!(_1g base 17), None),
    ("_1h base 17", None, || ubig!(_1h base 17), Some((|| ibig!(_1h base 17), || ibig!(-_1h base 17)))),
    ("_80 base 17", Some("88"), || ubig!(_80 base 17), None),
    ("80 base 17", Some("88"), || ubig!(80 base 17), None),
    ("_81 base 17", Some("89"), || ubig!(_81 base 17), Some((|| ibig!(_81 base 17), || ibig!(-_81 base 17)))),
    ("81 base 17", Some("89"), || ubig!(81 base 17), None),
    ("_88 base 17", Some("90"), || ubig!(_88 base 17), None),
    ("88 base 17", Some("90"), || ubig!(88 base 17), Some((|| ibig!(88 base 17), || ibig!(-88 base 17)))),
    ("_8g base 17", Some("98"), || ubig!(_8g base 17), None),
    ("_8h base 17", None, || ubig!(_8h base 17), None),
    ("_g0 base 17", Some("110"), || ubig!(_g0 base 17), Some((|| ibig!(_g0 base 17), || ibig!(-_g0 base 17)))),
    ("g0 base 17", Some("110"), || ubig!(g0 base 17), None),
    ("_g1 base 17", Some("111"), || ubig!(_g1 base 17), None),
    ("g1 base 17", Some("111"), || ubig!(g1 base 17), Some((|| ibig!(g1 base 17), || ibig!(-g1 base 17)))),
    ("_g8 base 17", Some("118"), || ubig!(_g8 base 17), None),
    ("g8 base 17", Some("118"), || ubig!(g8 base 17), None),
    ("_gg base 17", Some("120"), || ubig!(_gg base 17), Some((|| ibig!(_gg base 17), || ibig!(-_gg base 17)))),
    ("gg base 17", Some("120"), || ubig!(gg base 17), None),
    ("_gh base 17", None, || ubig!(_gh base 17), None),
    ("gh base 17", None, || ubig!(gh base 17), Some((|| ibig!(gh base 17), || ibig!(-gh base 17)))),
    ("_h0 base 17", None, || ubig!(_h0 base 17), None),
    ("h0 base 17", None, || ubig!(h0 base 17), None),
    ("_h1 base 17", None, || ubig!(_h1 base 17), Some((|| ibig!(_h1 base 17), || ibig!(-_h1 base 17)))),
    ("h1 base 17", None, || ubig!(h1 base 17), None),
    ("_h8 base 17", None, || ubig!(_h8 base 17), None),
    ("h8 base 17", None, || ubig!(h8 base 17), Some((|| ibig!(h8 base 17), || ibig!(-h8 base 17)))),
    ("_hg base 17", None, || ubig!(_hg base 17), None),
    ("hg base 17", None, || ubig!(hg base 17), None),
    ("_hh base 17", None, || ubig!(_hh base 17), Some((|| ibig!(_hh base 17), || ibig!(-_hh base 17)))),
    ("hh base 17", None, || ubig!(hh base 17), None),
    ("_78 base 17", Some("7f"), || ubig!(_78 base 17), None),
    ("_6b69 base 17", Some("8000"), || ubig!(_6b69 base 17), Some((|| ibig!(_6b69 base 17), || ibig!(-_6b69 base 17)))),
    ("_6B69 base 17", Some("8000"), || ubig!(_6B69 base 17), None),
    ("_19b93 base 17", Some("20001"), || ubig!(_19b93 base 17), None),
    ("_19B93 base 17", Some("20001"), || ubig!(_19B93 base 17), Some((|| ibig!(_19B93 base 17), || ibig!(-_19B93 base 17)))),
    ("_13feea411 base 17", Some("1ffffffff"), || ubig!(_13feea411 base 17), None),
    ("_13FEEA411 base 17", Some("1ffffffff"), || ubig!(_13FEEA411 base 17), None),
    ("_83a97c164e51 base 17", Some("1000000000000"), || ubig!(_83a97c164e51 base 17), Some((|| ibig!(_83a97c164e51 base 17), || ibig!(-_83a97c164e51 base 17)))),
    ("_83A97C164E51 base 17", Some("1000000000000"), || ubig!(_83A97C164E51 base 17), None),
    ("_67979g60f5428012 base 17", Some("10000000000000001"), || ubig!(_67979g60f5428012 base 17), None),
    ("_67979G60F5428012 base 17", Some("10000000000000001"), || ubig!(_67979G60F5428012 base 17), Some((|| ibig!(_67979G60F5428012 base 17), || ibig!(-_67979G60F5428012 base 17)))),
    ("_50g6c8d899980591a1e0 base 17", Some("ffffffffffffffffffff"), || ubig!(_50g6c8d899980591a1e0 base 17), None),
    ("_50G6C8D899980591A1E0 base 17", Some("ffffffffffffffffffff"), || ubig!(_50G6C8D899980591A1E0 base 17), None),
    ("_3g7c028egb7ed7052821f2a1 base 17", Some("1000000000000000000000000"), || ubig!(_3g7c028egb7ed7052821f2a1 base 17), Some((|| ibig!(_3g7c028egb7ed7052821f2a1 base 17), || ibig!(-_3g7c028egb7ed7052821f2a1 base 17)))),
    ("_3G7C028EGB7ED7052821F2A1 base 17", Some("1000000000000000000000000"), || ubig!(_3G7C028EGB7ED7052821F2A1 base 17), None),
    ("_13d03cge4242f3e39f9dga60476a809a base 17", Some("80000000000000000000000000000001"), || ubig!(_13d03cge4242f3e39f9dga60476a809a base 17), None),
    ("_13D03CGE4242F3E39F9DGA60476A809A base 17", Some("80000000000000000000000000000001"), || ubig!(_13D03CGE4242F3E39F9DGA60476A809A base 17), Some((|| ibig!(_13D03CGE4242F3E39F9DGA60476A809A base 17), || ibig!(-_13D03CGE4242F3E39F9DGA60476A809A base 17)))),
    ("_189bf302g7g3f0efce3f9cde76cd07fecbee8cb0 base 17", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_189bf302g7g3f0efce3f9cde76cd07fecbee8cb0 base 17), None),
    ("_189BF302G7G3F0EFCE3F9CDE76CD07FECBEE8CB0 base 17", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_189BF302G7G3F0EFCE3F9CDE76CD07FECBEE8CB0 base 17), None),
    ("_2gc6g6b135g0ed5a61efdd159eed39eg3e8d262d6cb24g2035c2a0253329ba9 base 17", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_2gc6g6b135g0ed5a61efdd159eed39eg3e8d262d6cb24g2035c2a0253329ba9 base 17), Some((|| ibig!(_2gc6g6b135g0ed5a61efdd159eed39eg3e8d262d6cb24g2035c2a0253329ba9 base 17), || ibig!(-_2gc6g6b135g0ed5a61efdd159eed39eg3e8d262d6cb24g2035c2a0253329ba9 base 17)))),
    ("_2GC6G6B135G0ED5A61EFDD159EED39EG3E8D262D6CB24G2035C2A0253329BA9 base 17", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_2GC6G6B135G0ED5A61EFDD159EED39EG3E8D262D6CB24G2035C2A0253329BA9 base 17), None),
    ("_247e8c42628d048c0ab6dde8ad361423586117972de67f798e4dcd73556gbd38ee954d73e57ga52 base 17", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_247e8c42628d048c0ab6dde8ad361423586117972de67f798e4dcd73556gbd38ee954d73e57ga52 base 17), None),
    ("_247E8C42628D048C0AB6DDE8AD361423586117972DE67F798E4DCD73556GBD38EE954D73E57GA52 base 17", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_247E8C42628D048C0AB6DDE8AD361423586117972DE67F798E4DCD73556GBD38EE954D73E57GA52 base 17), Some((|| ibig!(_247E8C42628D048C0AB6DDE8AD361423586117972DE67F798E4DCD73556GBD38EE954D73E57GA52 base 17), || ibig!(-_247E8C42628D048C0AB6DDE8AD361423586117972DE67F798E4DCD73556GBD38EE954D73E57GA52 base 17)))),
    ("_b08651e016a4cf5538aegf1a2g475bf3faa98f709b751b9f9a1g47g base 17", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_b08651e016a4cf5538aegf1a2g475bf3faa98f709b751b9f9a1g47g base 17), None),
    ("_B08651E016A4CF5538AEGF1A2G475BF3FAA98F709B751B9F9A1G47G base 17", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_B08651E016A4CF5538AEGF1A2G475BF3FAA98F709B751B9F9A1G47G base 17), None),
    ("B08651E016A4CF5538AEGF1A2G475BF3FAA98F709B751B9F9A1G47G base 17", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(B08651E016A4CF5538AEGF1A2G475BF3FAA98F709B751B9F9A1G47G base 17), Some((|| ibig!(B08651E016A4CF5538AEGF1A2G475BF3FAA98F709B751B9F9A1G47G base 17), || ibig!(-B08651E016A4CF5538AEGF1A2G475BF3FAA98F709B751B9F9A1G47G base 17)))),
    ("_1000000000000 base 17", Some("211e44f7d02c1"), || ubig!(_1000000000000 base 17), None),
    ("_gggggggggggggggggggggggggggggggggggggggg base 17", Some("b4d53b3d31bc27dc17271513120c0f5c738ea8e80"), || ubig!(_gggggggggggggggggggggggggggggggggggggggg base 17), None),
    ("_GGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGG base 17", Some("b4d53b3d31bc27dc17271513120c0f5c738ea8e80"), || ubig!(_GGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGG base 17), Some((|| ibig!(_GGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGG base 17), || ibig!(-_GGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGG base 17)))),
    ("GGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGG base 17", Some("b4d53b3d31bc27dc17271513120c0f5c738ea8e80"), || ubig!(GGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGG base 17), None),
    ("_100000000000000000000000000000000000000000 base 17", Some("c0228ef104d7ea59d8998664432cd0523ac7937691"), || ubig!(_100000000000000000000000000000000000000000 base 17), None),
    ("_1_0 base 17", None, || ubig!(_1_0 base 17), Some((|| ibig!(_1_0 base 17), || ibig!(-_1_0 base 17)))),
    ("__1 base 17", None, || ubig!(__1 base 17), None),
    ("1_0 base 17", None, || ubig!(1_0 base 17), None),
    ("_0 base 18", Some("0"), || ubig!(_0 base 18), Some((|| ibig!(_0 base 18), || ibig!(-_0 base 18)))),
    ("0 base 18", Some("0"), || ubig!(0 base 18), None),
    ("_1 base 18", Some("1"), || ubig!(_1 base 18), None),
    ("1 base 18", Some("1"), || ubig!(1 base 18), Some((|| ibig!(1 base 18), || ibig!(-1 base 18)))),
    ("_9 base 18", Some("9"), || ubig!(_9 base 18), None),
    ("9 base 18", Some("9"), || ubig!(9 base 18), None),
];
pub static PART22: &[Row] = &[
    ("_h base 18", Some("11"), || ubig!(_h base 18), Some((|| ibig!(_h base 18), || ibig!(-_h base 18)))),
    ("h base 18", Some("11"), || ubig!(h base 18), None),
    ("_i base 18", None, || ubig!(_i base 18), None),
    ("i base 18", None, || ubig!(i base 18), Some((|| ibig!(i base 18), || ibig!(-i base 18)))),
    ("_00 base 18", Some("0"), || ubig!(_00 base 18), None),
    ("00 base 18", Some("0"), || ubig!(00 base 18), None),
    ("_01 base 18", Some("1"), || ubig!(_01 base 18), Some((|| ibig!(_01 base 18), || ibig!(-_01 base 18)))),
    ("01 base 18", Some("1"), || ubig!(01 base 18), None),
    ("_09 base 18", Some("9"), || ubig!(_09 base 18), None),
    ("09 base 18", Some("9"), || ubig!(09 base 18), Some((|| ibig!(09 base 18), || ibig!(-09 base 18)))),
    ("_0h base 18", Some("11"), || ubig!(_0h base 18), None),
    ("_0i base 18", None, || ubig!(_0i base 18), None),
    ("_10 base 18", Some("12"), || ubig!(_10 base 18), Some((|| ibig!(_10 base 18), || ibig!(-_10 base 18)))),
    ("10 base 18", Some("12"), || ubig!(10 base 18), None),
    ("_11 base 18", Some("13"), || ubig!(_11 base 18), None),
    ("11 base 18", Some("13"), || ubig!(11 base 18), Some((|| ibig!(11 base 18), || ibig!(-11 base 18)))),
    ("_19 base 18", Some("1b"), || ubig!(_19 base 18), None),
    ("19 base 18", Some("1b"), || ubig!(19 base 18), None),
    ("_1h base 18", Some("23"), || ubig!(_1h base 18), Some((|| ibig!(_1h base 18), || ibig!(-_1h base 18)))),
    ("_1i base 18", None, || ubig!(_1i base 18), None),
    ("_90 base 18", Some("a2"), || ubig!(_90 base 18), None),
    ("90 base 18", Some("a2"), || ubig!(90 base 18), Some((|| ibig!(90 base 18), || ibig!(-90 base 18)))),
    ("_91 base 18", Some("a3"), || ubig!(_91 base 18), None),
    ("91 base 18", Some("a3"), || ubig!(91 base 18), None),
    ("_99 base 18", Some("ab"), || ubig!(_99 base 18), Some((|| ibig!(_99 base 18), || ibig!(-_99 base 18)))),
    ("99 base 18", Some("ab"), || ubig!(99 base 18), None),
    ("_9h base 18", Some("b3"), || ubig!(_9h base 18), None),
    ("_9i base 18", None, || ubig!(_9i base 18), Some((|| ibig!(_9i base 18), || ibig!(-_9i base 18)))),
    ("_h0 base 18", Some("132"), || ubig!(_h0 base 18), None),
    ("h0 base 18", Some("132"), || ubig!(h0 base 18), None),
    ("_h1 base 18", Some("133"), || ubig!(_h1 base 18), Some((|| ibig!(_h1 base 18), || ibig!(-_h1 base 18)))),
    ("h1 base 18", Some("133"), || ubig!(h1 base 18), None),
    ("_h9 base 18", Some("13b"), || ubig!(_h9 base 18), None),
    ("h9 base 18", Some("13b"), || ubig!(h9 base 18), Some((|| ibig!(h9 base 18), || ibig!(-h9 base 18)))),
    ("_hh base 18", Some("143"), || ubig!(_hh base 18), None),
    ("hh base 18", Some("143"), || ubig!(hh base 18), None),
    ("_hi base 18", None, || ubig!(_hi base 18), Some((|| ibig!(_hi base 18), || ibig!(-_hi base 18)))),
    ("hi base 18", None, || ubig!(hi base 18), None),
    ("_i0 base 18", None, || ubig!(_i0 base 18), None),
    ("i0 base 18", None, || ubig!(i0 base 18), Some((|| ibig!(i0 base 18), || ibig!(-i0 base 18)))),
    ("_i1 base 18", None, || ubig!(_i1 base 18), None),
    ("i1 base 18", None, || ubig!(i1 base 18), None),
    ("_i9 base 18", None, || ubig!(_i9 base 18), Some((|| ibig!(_i9 base 18), || ibig!(-_i9 base 18)))),
    ("i9 base 18", None, || ubig!(i9 base 18), None),
    ("_ih base 18", None, || ubig!(_ih base 18), None),
    ("ih base 18", None, || ubig!(ih base 18), Some((|| ibig!(ih base 18), || ibig!(-ih base 18)))),
    ("_ii base 18", None, || ubig!(_ii base 18), None),
    ("ii base 18", None, || ubig!(ii base 18), None),
    ("_71 base 18", Some("7f"), || ubig!(_71 base 18), Some((|| ibig!(_71 base 18), || ibig!(-_71 base 18)))),
    ("_5b28 base 18", Some("8000"), || ubig!(_5b28 base 18), None),
    ("_5B28 base 18", Some("8000"), || ubig!(_5B28 base 18), None),
    ("_1489f base 18", Some("20001"), || ubig!(_1489f base 18), Some((|| ibig!(_1489f base 18), || ibig!(-_1489f base 18)))),
    ("_1489F base 18", Some("20001"), || ubig!(_1489F base 18), None),
    ("_e09hafe7 base 18", Some("1ffffffff"), || ubig!(_e09hafe7 base 18), None),
    ("_E09HAFE7 base 18", Some("1ffffffff"), || ubig!(_E09HAFE7 base 18), Some((|| ibig!(_E09HAFE7 base 18), || ibig!(-_E09HAFE7 base 18)))),
    ("E09HAFE7 base 18", Some("1ffffffff"), || ubig!(E09HAFE7 base 18), None),
    ("_46f0527cb95a base 18", Some("1000000000000"), || ubig!(_46f0527cb95a base 18), None),
    ("_46F0527CB95A base 18", Some("1000000000000"), || ubig!(_46F0527CB95A base 18), Some((|| ibig!(_46F0527CB95A base 18), || ibig!(-_46F0527CB95A base 18)))),
    ("_2d3fgb0b9cg4bd2h base 18", Some("10000000000000001"), || ubig!(_2d3fgb0b9cg4bd2h base 18), None),
    ("_2D3FGB0B9CG4BD2H base 18", Some("10000000000000001"), || ubig!(_2D3FGB0B9CG4BD2H base 18), None),
    ("_1cd0h57c7833h527dg23 base 18", Some("ffffffffffffffffffff"), || ubig!(_1cd0h57c7833h527dg23 base 18), Some((|| ibig!(_1cd0h57c7833h527dg23 base 18), || ibig!(-_1cd0h57c7833h527dg23 base 18)))),
    ("_1CD0H57C7833H527DG23 base 18", Some("ffffffffffffffffffff"), || ubig!(_1CD0H57C7833H527DG23 base 18), None),
    ("_1134ehhaff48a7che5egfcfa base 18", Some("1000000000000000000000000"), || ubig!(_1134ehhaff48a7che5egfcfa base 18), None),
    ("_1134EHHAFF48A7CHE5EGFCFA base 18", Some("1000000000000000000000000"), || ubig!(_1134EHHAFF48A7CHE5EGFCFA base 18), Some((|| ibig!(_1134EHHAFF48A7CHE5EGFCFA base 18), || ibig!(-_1134EHHAFF48A7CHE5EGFCFA base 18)))),
    ("_3d51ddf66g5befc8e19d2607hc26e33 base 18", Some("80000000000000000000000000000001"), || ubig!(_3d51ddf66g5befc8e19d2607hc26e33 base 18), None),
    ("_3D51DDF66G5BEFC8E19D2607HC26E33 base 18", Some("80000000000000000000000000000001"), || ubig!(_3D51DDF66G5BEFC8E19D2607HC26E33 base 18), None),
    ("_2g80c12722382114de3d6h7852c2a2gdhcdd6gf base 18", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_2g80c12722382114de3d6h7852c2a2gdhcdd6gf base 18), Some((|| ibig!(_2g80c12722382114de3d6h7852c2a2gdhcdd6gf base 18), || ibig!(-_2g80c12722382114de3d6h7852c2a2gdhcdd6gf base 18)))),
    ("_2G80C12722382114DE3D6H7852C2A2GDHCDD6GF base 18", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_2G80C12722382114DE3D6H7852C2A2GDHCDD6GF base 18), None),
    ("_19h012hg449c2a7f12g76c6h0bde8ed528e165fde1h34e333g8gd1h4f67568 base 18", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_19h012hg449c2a7f12g76c6h0bde8ed528e165fde1h34e333g8gd1h4f67568 base 18), None),
    ("_19H012HG449C2A7F12G76C6H0BDE8ED528E165FDE1H34E333G8GD1H4F67568 base 18", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_19H012HG449C2A7F12G76C6H0BDE8ED528E165FDE1H34E333G8GD1H4F67568 base 18), Some((|| ibig!(_19H012HG449C2A7F12G76C6H0BDE8ED528E165FDE1H34E333G8GD1H4F67568 base 18), || ibig!(-_19H012HG449C2A7F12G76C6H0BDE8ED528E165FDE1H34E333G8GD1H4F67568 base 18)))),
    ("_88eb855561ebg02b09h3b504g30cc501afd851d6gcg89f08bc037c716e31fb5e123e52cg34945 base 18", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_88eb855561ebg02b09h3b504g30cc501afd851d6gcg89f08bc037c716e31fb5e123e52cg34945 base 18), None),
    ("_88EB855561EBG02B09H3B504G30CC501AFD851D6GCG89F08BC037C716E31FB5E123E52CG34945 base 18", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_88EB855561EBG02B09H3B504G30CC501AFD851D6GCG89F08BC037C716E31FB5E123E52CG34945 base 18), None),
    ("_912egcgb28539d64277c3e028a3ch1c66cc01bc74g1aehf5493576 base 18", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_912egcgb28539d64277c3e028a3ch1c66cc01bc74g1aehf5493576 base 18), Some((|| ibig!(_912egcgb28539d64277c3e028a3ch1c66cc01bc74g1aehf5493576 base 18), || ibig!(-_912egcgb28539d64277c3e028a3ch1c66cc01bc74g1aehf5493576 base 18)))),
    ("_912EGCGB28539D64277C3E028A3CH1C66CC01BC74G1AEHF5493576 base 18", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_912EGCGB28539D64277C3E028A3CH1C66CC01BC74G1AEHF5493576 base 18), None),
    ("_1000000000000 base 18", Some("41c21cb8e1000"), || ubig!(_1000000000000 base 18), None),
    ("_hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh base 18", Some("6f32f1ef8b18a2bc3cea59789c79d440ffffffffff"), || ubig!(_hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh base 18), Some((|| ibig!(_hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh base 18), || ibig!(-_hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh base 18)))),
    ("_HHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHH base 18", Some("6f32f1ef8b18a2bc3cea59789c79d440ffffffffff"), || ubig!(_HHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHH base 18), None),
    ("HHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHH base 18", Some("6f32f1ef8b18a2bc3cea59789c79d440ffffffffff"), || ubig!(HHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHH base 18), None),
    ("_100000000000000000000000000000000000000000 base 18", Some("7d19502d7c7bb713c487a4a7b0090ec920000000000"), || ubig!(_100000000000000000000000000000000000000000 base 18), Some((|| ibig!(_100000000000000000000000000000000000000000 base 18), || ibig!(-_100000000000000000000000000000000000000000 base 18)))),
    ("_1_0 base 18", None, || ubig!(_1_0 base 18), None),
    ("__1 base 18", None, || ubig!(__1 base 18), None),
    ("1_0 base 18", None, || ubig!(1_0 base 18), Some((|| ibig!(1_0 base 18), || ibig!(-1_0 base 18)))),
    ("_0 base 19", Some("0"), || ubig!(_0 base 19), None),
    ("0 base 19", Some("0"), || ubig!(0 base 19), None),
    ("_1 base 19", Some("1"), || ubig!(_1 base 19), Some((|| ibig!(_1 base 19), || ibig!(-_1 base 19)))),
    ("1 base 19", Some("1"), || ubig!(1 base 19), None),
    ("_9 base 19", Some("9"), || ubig!(_9 base 19), None),
    ("9 base 19", Some("9"), || ubig!(9 base 19), Some((|| ibig!(9 base 19), || ibig!(-9 base 19)))),
    ("_i base 19", Some("12"), || ubig!(_i base 19), None),
    ("i base 19", Some("12"), || ubig!(i base 19), None),
    ("_j base 19", None, || ubig!(_j base 19), Some((|| ibig!(_j base 19), || ibig!(-_j base 19)))),
    ("j base 19", None, || ubig!(j base 19), None),
    ("_00 base 19", Some("0"), || ubig!(_00 base 19), None),
    ("00 base 19", Some("0"), || ubig!(00 base 19), Some((|| ibig!(00 base 19), || ibig!(-00 base 19)))),
    ("_01 base 19", Some("1"), || ubig!(_01 base 19), None),
    ("01 base 19", Some("1"), || ubig!(01 base 19), None),
    ("_09 base 19", Some("9"), || ubig!(_09 base 19), Some((|| ibig!(_09 base 19), || ibig!(-_09 base 19)))),
    ("09 base 19", Some("9"), || ubig!(09 base 19), None),
    ("_0i base 19", Some("12"), || ubig!(_0i base 19), None),
    ("_0j base 19", None, || ubig!(_0j base 19), Some((|| ibig!(_0j base 19), || ibig!(-_0j base 19)))),
    ("_10 base 19", Some("13"), || ubig!(_10 base 19), None),
    ("10 base 19", Some("13"), || ubig!(10 base 19), None),
    ("_11 base 19", Some("14"), || ubig!(_11 base 19), Some((|| ibig!(_11 base 19), || ibig!(-_11 base 19)))),
    ("11 base 19", Some("14"), || ubig!(11 base 19), None),
    ("_19 base 19", Some("1c"), || ubig!(_19 base 19), None),
    ("19 base 19", Some("1c"), || ubig!(19 base 19), Some((|| ibig!(19 base 19), || ibig!(-19 base 19)))),
    ("_1i base 19", Some("25"), || ubig!(_1i base 19), None),
    ("_1j base 19", None, || ubig!(_1j base 19), None),
    ("_90 base 19", Some("ab"), || ubig!(_90 base 19), Some((|| ibig!(_90 base 19), || ibig!(-_90 base 19)))),
    ("90 base 19", Some("ab"), || ubig!(90 base 19), None),
    ("_91 base 19", Some("ac"), || ubig!(_91 base 19), None),
    ("91 base 19", Some("ac"), || ubig!(91 base 19), Some((|| ibig!(91 base 19), || ibig!(-91 base 19)))),
    ("_99 base 19", Some("b4"), || ubig!(_99 base 19), None),
    ("99 base 19", Some("b4"), || ubig!(99 base 19), None),
    ("_9i base 19", Some("bd"), || ubig!(_9i base 19), Some((|| ibig!(_9i base 19), || ibig!(-_9i base 19)))),
    ("_9j base 19", None, || ubig!(_9j base 19), None),
    ("_i0 base 19", Some("156"), || ubig!(_i0 base 19), None),
    ("i0 base 19", Some("156"), || ubig!(i0 base 19), Some((|| ibig!(i0 base 19), || ibig!(-i0 base 19)))),
    ("_i1 base 19", Some("157"), || ubig!(_i1 base 19), None),
    ("i1 base 19", Some("157"), || ubig!(i1 base 19), None),
    ("_i9 base 19", Some("15f"), || ubig!(_i9 base 19), Some((|| ibig!(_i9 base 19), || ibig!(-_i9 base 19)))),
    ("i9 base 19", Some("15f"), || ubig!(i9 base 19), None),
    ("_ii base 19", Some("168"), || ubig!(_ii base 19), None),
    ("ii base 19", Some("168"), || ubig!(ii base 19), Some((|| ibig!(ii base 19), || ibig!(-ii base 19)))),
    ("_ij base 19", None, || ubig!(_ij base 19), None),
    ("ij base 19", None, || ubig!(ij base 19), None),
    ("_j0 base 19", None, || ubig!(_j0 base 19), Some((|| ibig!(_j0 base 19), || ibig!(-_j0 base 19)))),
    ("j0 base 19", None, || ubig!(j0 base 19), None),
    ("_j1 base 19", None, || ubig!(_j1 base 19), None),
    ("j1 base 19", None, || ubig!(j1 base 19), Some((|| ibig!(j1 base 19), || ibig!(-j1 base 19)))),
    ("_j9 base 19", None, || ubig!(_j9 base 19), None),
    ("j9 base 19", None, || ubig!(j9 base 19), None),
    ("_ji base 19", None, || ubig!(_ji base 19), Some((|| ibig!(_ji base 19), || ibig!(-_ji base 19)))),
    ("ji base 19", None, || ubig!(ji base 19), None),
    ("_jj base 19", None, || ubig!(_jj base 19), None),
    ("jj base 19", None, || ubig!(jj base 19), Some((|| ibig!(jj base 19), || ibig!(-jj base 19)))),
    ("_6d base 19", Some("7f"), || ubig!(_6d base 19), None),
    ("_6D base 19", Some("7f"), || ubig!(_6D base 19), None),
    ("_4eec base 19", Some("8000"), || ubig!(_4eec base 19), Some((|| ibig!(_4eec base 19), || ibig!(-_4eec base 19)))),
    ("_4EEC base 19", Some("8000"), || ubig!(_4EEC base 19), None),
    ("_1021b base 19", Some("20001"), || ubig!(_1021b base 19), None),
    ("_1021B base 19", Some("20001"), || ubig!(_1021B base 19), Some((|| ibig!(_1021B base 19), || ibig!(-_1021B base 19)))),
    ("_9bb2cbcb base 19", Some("1ffffffff"), || ubig!(_9bb2cbcb base 19), None),
    ("_9BB2CBCB base 19", Some("1ffffffff"), || ubig!(_9BB2CBCB base 19), None),
    ("_27h572e479fb base 19", Some("1000000000000"), || ubig!(_27h572e479fb base 19), Some((|| ibig!(_27h572e479fb base 19), || ibig!(-_27h572e479fb base 19)))),
    ("_27H572E479FB base 19", Some("1000000000000"), || ubig!(_27H572E479FB base 19), None),
    ("_141c8786h1ccaagi base 19", Some("10000000000000001"), || ubig!(_141c8786h1ccaagi base 19), None),
    ("_141C8786H1CCAAGI base 19", Some("10000000000000001"), || ubig!(_141C8786H1CCAAGI base 19), Some((|| ibig!(_141C8786H1CCAAGI base 19), || ibig!(-_141C8786H1CCAAGI base 19)))),
    ("_bbb48haf1bcidcb8d78 base 19", Some("ffffffffffffffffffff"), || ubig!(_bbb48haf1bcidcb8d78 base 19), None),
    ("_BBB48HAF1BCIDCB8D78 base 19", Some("ffffffffffffffffffff"), || ubig!(_BBB48HAF1BCIDCB8D78 base 19), None),
];
pub static PART23: &[Row] = &[
    ("BBB48HAF1BCIDCB8D78 base 19", Some("ffffffffffffffffffff"), || ubig!(BBB48HAF1BCIDCB8D78 base 19), Some((|| ibig!(BBB48HAF1BCIDCB8D78 base 19), || ibig!(-BBB48HAF1BCIDCB8D78 base 19)))),
    ("_5fhd3a6480325483753a3d7 base 19", Some("1000000000000000000000000"), || ubig!(_5fhd3a6480325483753a3d7 base 19), None),
    ("_5FHD3A6480325483753A3D7 base 19", Some("1000000000000000000000000"), || ubig!(_5FHD3A6480325483753A3D7 base 19), None),
    ("_e09c09h6a4eihac8fchc875gf4di43 base 19", Some("80000000000000000000000000000001"), || ubig!(_e09c09h6a4eihac8fchc875gf4di43 base 19), Some((|| ibig!(_e09c09h6a4eihac8fchc875gf4di43 base 19), || ibig!(-_e09c09h6a4eihac8fchc875gf4di43 base 19)))),
    ("_E09C09H6A4EIHAC8FCHC875GF4DI43 base 19", Some("80000000000000000000000000000001"), || ubig!(_E09C09H6A4EIHAC8FCHC875GF4DI43 base 19), None),
    ("E09C09H6A4EIHAC8FCHC875GF4DI43 base 19", Some("80000000000000000000000000000001"), || ubig!(E09C09H6A4EIHAC8FCHC875GF4DI43 base 19), None),
    ("_71f1a2h458124hf1a7hhg715bhh0ie94f2i4g4 base 19", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_71f1a2h458124hf1a7hhg715bhh0ie94f2i4g4 base 19), Some((|| ibig!(_71f1a2h458124hf1a7hhg715bhh0ie94f2i4g4 base 19), || ibig!(-_71f1a2h458124hf1a7hhg715bhh0ie94f2i4g4 base 19)))),
    ("_71F1A2H458124HF1A7HHG715BHH0IE94F2I4G4 base 19", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_71F1A2H458124HF1A7HHG715BHH0IE94F2I4G4 base 19), None),
    ("_11d97i5f672g95641c78i83e1fcf66g33b4i7h85h677g76g07hd15a8g26d8 base 19", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_11d97i5f672g95641c78i83e1fcf66g33b4i7h85h677g76g07hd15a8g26d8 base 19), None),
    ("_11D97I5F672G95641C78I83E1FCF66G33B4I7H85H677G76G07HD15A8G26D8 base 19", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_11D97I5F672G95641C78I83E1FCF66G33B4I7H85H677G76G07HD15A8G26D8 base 19), Some((|| ibig!(_11D97I5F672G95641C78I83E1FCF66G33B4I7H85H677G76G07HD15A8G26D8 base 19), || ibig!(-_11D97I5F672G95641C78I83E1FCF66G33B4I7H85H677G76G07HD15A8G26D8 base 19)))),
    ("_2c656bc2h7350dcae2d1a88ig0a2b2aig3db6e350ghg1eai1e2b6c4eibd1c22agb8206b21097 base 19", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_2c656bc2h7350dcae2d1a88ig0a2b2aig3db6e350ghg1eai1e2b6c4eibd1c22agb8206b21097 base 19), None),
    ("_2C656BC2H7350DCAE2D1A88IG0A2B2AIG3DB6E350GHG1EAI1E2B6C4EIBD1C22AGB8206B21097 base 19", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_2C656BC2H7350DCAE2D1A88IG0A2B2AIG3DB6E350GHG1EAI1E2B6C4EIBD1C22AGB8206B21097 base 19), None),
    ("_9f6e836iegb02ei90chf61e3d9959ig1f2bce73cgedi98a8i248d base 19", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_9f6e836iegb02ei90chf61e3d9959ig1f2bce73cgedi98a8i248d base 19), Some((|| ibig!(_9f6e836iegb02ei90chf61e3d9959ig1f2bce73cgedi98a8i248d base 19), || ibig!(-_9f6e836iegb02ei90chf61e3d9959ig1f2bce73cgedi98a8i248d base 19)))),
    ("_9F6E836IEGB02EI90CHF61E3D9959IG1F2BCE73CGEDI98A8I248D base 19", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_9F6E836IEGB02EI90CHF61E3D9959IG1F2BCE73CGEDI98A8I248D base 19), None),
    ("_1000000000000 base 19", Some("7dcff8986ea31"), || ubig!(_1000000000000 base 19), None),
    ("_iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii base 19", Some("3c6d169199387f861b667bdf9ac0613e871ec39afa0"), || ubig!(_iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii base 19), Some((|| ibig!(_iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii base 19), || ibig!(-_iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii base 19)))),
    ("_IIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIII base 19", Some("3c6d169199387f861b667bdf9ac0613e871ec39afa0"), || ubig!(_IIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIII base 19), None),
    ("IIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIII base 19", Some("3c6d169199387f861b667bdf9ac0613e871ec39afa0"), || ubig!(IIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIIII base 19), None),
    ("_100000000000000000000000000000000000000000 base 19", Some("47c18acce5f3176f4089b31987c4737a4074884808f3"), || ubig!(_100000000000000000000000000000000000000000 base 19), Some((|| ibig!(_100000000000000000000000000000000000000000 base 19), || ibig!(-_100000000000000000000000000000000000000000 base 19)))),
    ("_1_0 base 19", None, || ubig!(_1_0 base 19), None),
    ("__1 base 19", None, || ubig!(__1 base 19), None),
    ("1_0 base 19", None, || ubig!(1_0 base 19), Some((|| ibig!(1_0 base 19), || ibig!(-1_0 base 19)))),
    ("_0 base 20", Some("0"), || ubig!(_0 base 20), None),
    ("0 base 20", Some("0"), || ubig!(0 base 20), None),
    ("_1 base 20", Some("1"), || ubig!(_1 base 20), Some((|| ibig!(_1 base 20), || ibig!(-_1 base 20)))),
    ("1 base 20", Some("1"), || ubig!(1 base 20), None),
    ("_a base 20", Some("a"), || ubig!(_a base 20), None),
    ("a base 20", Some("a"), || ubig!(a base 20), Some((|| ibig!(a base 20), || ibig!(-a base 20)))),
    ("_j base 20", Some("13"), || ubig!(_j base 20), None),
    ("j base 20", Some("13"), || ubig!(j base 20), None),
    ("_k base 20", None, || ubig!(_k base 20), Some((|| ibig!(_k base 20), || ibig!(-_k base 20)))),
    ("k base 20", None, || ubig!(k base 20), None),
    ("_00 base 20", Some("0"), || ubig!(_00 base 20), None),
    ("00 base 20", Some("0"), || ubig!(00 base 20), Some((|| ibig!(00 base 20), || ibig!(-00 base 20)))),
    ("_01 base 20", Some("1"), || ubig!(_01 base 20), None),
    ("01 base 20", Some("1"), || ubig!(01 base 20), None),
    ("_0a base 20", Some("a"), || ubig!(_0a base 20), Some((|| ibig!(_0a base 20), || ibig!(-_0a base 20)))),
    ("_0j base 20", Some("13"), || ubig!(_0j base 20), None),
    ("_0k base 20", None, || ubig!(_0k base 20), None),
    ("_10 base 20", Some("14"), || ubig!(_10 base 20), Some((|| ibig!(_10 base 20), || ibig!(-_10 base 20)))),
    ("10 base 20", Some("14"), || ubig!(10 base 20), None),
    ("_11 base 20", Some("15"), || ubig!(_11 base 20), None),
    ("11 base 20", Some("15"), || ubig!(11 base 20), Some((|| ibig!(11 base 20), || ibig!(-11 base 20)))),
    ("_1a base 20", Some("1e"), || ubig!(_1a base 20), None),
    ("_1j base 20", Some("27"), || ubig!(_1j base 20), None),
    ("_1k base 20", None, || ubig!(_1k base 20), Some((|| ibig!(_1k base 20), || ibig!(-_1k base 20)))),
    ("_a0 base 20", Some("c8"), || ubig!(_a0 base 20), None),
    ("a0 base 20", Some("c8"), || ubig!(a0 base 20), None),
    ("_a1 base 20", Some("c9"), || ubig!(_a1 base 20), Some((|| ibig!(_a1 base 20), || ibig!(-_a1 base 20)))),
    ("a1 base 20", Some("c9"), || ubig!(a1 base 20), None),
    ("_aa base 20", Some("d2"), || ubig!(_aa base 20), None),
    ("aa base 20", Some("d2"), || ubig!(aa base 20), Some((|| ibig!(aa base 20), || ibig!(-aa base 20)))),
    ("_aj base 20", Some("db"), || ubig!(_aj base 20), None),
    ("aj base 20", Some("db"), || ubig!(aj base 20), None),
    ("_ak base 20", None, || ubig!(_ak base 20), Some((|| ibig!(_ak base 20), || ibig!(-_ak base 20)))),
    ("ak base 20", None, || ubig!(ak base 20), None),
    ("_j0 base 20", Some("17c"), || ubig!(_j0 base 20), None),
    ("j0 base 20", Some("17c"), || ubig!(j0 base 20), Some((|| ibig!(j0 base 20), || ibig!(-j0 base 20)))),
    ("_j1 base 20", Some("17d"), || ubig!(_j1 base 20), None),
    ("j1 base 20", Some("17d"), || ubig!(j1 base 20), None),
    ("_ja base 20", Some("186"), || ubig!(_ja base 20), Some((|| ibig!(_ja base 20), || ibig!(-_ja base 20)))),
    ("ja base 20", Some("186"), || ubig!(ja base 20), None),
    ("_jj base 20", Some("18f"), || ubig!(_jj base 20), None),
    ("jj base 20", Some("18f"), || ubig!(jj base 20), Some((|| ibig!(jj base 20), || ibig!(-jj base 20)))),
    ("_jk base 20", None, || ubig!(_jk base 20), None),
    ("jk base 20", None, || ubig!(jk base 20), None),
    ("_k0 base 20", None, || ubig!(_k0 base 20), Some((|| ibig!(_k0 base 20), || ibig!(-_k0 base 20)))),
    ("k0 base 20", None, || ubig!(k0 base 20), None),
    ("_k1 base 20", None, || ubig!(_k1 base 20), None),
    ("k1 base 20", None, || ubig!(k1 base 20), Some((|| ibig!(k1 base 20), || ibig!(-k1 base 20)))),
    ("_ka base 20", None, || ubig!(_ka base 20), None),
    ("ka base 20", None, || ubig!(ka base 20), None),
    ("_kj base 20", None, || ubig!(_kj base 20), Some((|| ibig!(_kj base 20), || ibig!(-_kj base 20)))),
    ("kj base 20", None, || ubig!(kj base 20), None),
    ("_kk base 20", None, || ubig!(_kk base 20), None),
    ("kk base 20", None, || ubig!(kk base 20), Some((|| ibig!(kk base 20), || ibig!(-kk base 20)))),
    ("_67 base 20", Some("7f"), || ubig!(_67 base 20), None),
    ("_41i8 base 20", Some("8000"), || ubig!(_41i8 base 20), None),
    ("_41I8 base 20", Some("8000"), || ubig!(_41I8 base 20), Some((|| ibig!(_41I8 base 20), || ibig!(-_41I8 base 20)))),
    ("_g7dd base 20", Some("20001"), || ubig!(_g7dd base 20), None),
    ("_G7DD base 20", Some("20001"), || ubig!(_G7DD base 20), None),
    ("G7DD base 20", Some("20001"), || ubig!(G7DD base 20), Some((|| ibig!(G7DD base 20), || ibig!(-G7DD base 20)))),
    ("_6e471g9b base 20", Some("1ffffffff"), || ubig!(_6e471g9b base 20), None),
    ("_6E471G9B base 20", Some("1ffffffff"), || ubig!(_6E471G9B base 20), None),
    ("_179f26a48gcg base 20", Some("1000000000000"), || ubig!(_179f26a48gcg base 20), Some((|| ibig!(_179f26a48gcg base 20), || ibig!(-_179f26a48gcg base 20)))),
    ("_179F26A48GCG base 20", Some("1000000000000"), || ubig!(_179F26A48GCG base 20), None),
    ("_b53bjh07be4dj0h base 20", Some("10000000000000001"), || ubig!(_b53bjh07be4dj0h base 20), None),
    ("_B53BJH07BE4DJ0H base 20", Some("10000000000000001"), || ubig!(_B53BJH07BE4DJ0H base 20), Some((|| ibig!(_B53BJH07BE4DJ0H base 20), || ibig!(-_B53BJH07BE4DJ0H base 20)))),
    ("B53BJH07BE4DJ0H base 20", Some("10000000000000001"), || ubig!(B53BJH07BE4DJ0H base 20), None),
    ("_4c4d9f53beg90h1i58f base 20", Some("ffffffffffffffffffff"), || ubig!(_4c4d9f53beg90h1i58f base 20), None),
    ("_4C4D9F53BEG90H1I58F base 20", Some("ffffffffffffffffffff"), || ubig!(_4C4D9F53BEG90H1I58F base 20), Some((|| ibig!(_4C4D9F53BEG90H1I58F base 20), || ibig!(-_4C4D9F53BEG90H1I58F base 20)))),
    ("_1hfbb91j4be16e74j29dfgg base 20", Some("1000000000000000000000000"), || ubig!(_1hfbb91j4be16e74j29dfgg base 20), None),
    ("_1HFBB91J4BE16E74J29DFGG base 20", Some("1000000000000000000000000"), || ubig!(_1HFBB91J4BE16E74J29DFGG base 20), None),
    ("_337d04g0ec2d918ac3j85180dfd469 base 20", Some("80000000000000000000000000000001"), || ubig!(_337d04g0ec2d918ac3j85180dfd469 base 20), Some((|| ibig!(_337d04g0ec2d918ac3j85180dfd469 base 20), || ibig!(-_337d04g0ec2d918ac3j85180dfd469 base 20)))),
    ("_337D04G0EC2D918AC3J85180DFD469 base 20", Some("80000000000000000000000000000001"), || ubig!(_337D04G0EC2D918AC3J85180DFD469 base 20), None),
    ("_115713d7dda0c6cicjg9b755idfdcf63ii7h8f base 20", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_115713d7dda0c6cicjg9b755idfdcf63ii7h8f base 20), None),
    ("_115713D7DDA0C6CICJG9B755IDFDCF63II7H8F base 20", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_115713D7DDA0C6CICJG9B755IDFDCF63II7H8F base 20), Some((|| ibig!(_115713D7DDA0C6CICJG9B755IDFDCF63II7H8F base 20), || ibig!(-_115713D7DDA0C6CICJG9B755IDFDCF63II7H8F base 20)))),
    ("_101edg1f82haf2231jf17dd9757d7759e6461e1ai9f61c29c42eb16a29i8 base 20", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_101edg1f82haf2231jf17dd9757d7759e6461e1ai9f61c29c42eb16a29i8 base 20), None),
    ("_101EDG1F82HAF2231JF17DD9757D7759E6461E1AI9F61C29C42EB16A29I8 base 20", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_101EDG1F82HAF2231JF17DD9757D7759E6461E1AI9F61C29C42EB16A29I8 base 20), None),
    ("_12c652ff96bc7g6fah1e8cjb38aebcba1e3i21e4cie81h27544cjacjj116f9gfd3bj2c3718h base 20", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_12c652ff96bc7g6fah1e8cjb38aebcba1e3i21e4cie81h27544cjacjj116f9gfd3bj2c3718h base 20), Some((|| ibig!(_12c652ff96bc7g6fah1e8cjb38aebcba1e3i21e4cie81h27544cjacjj116f9gfd3bj2c3718h base 20), || ibig!(-_12c652ff96bc7g6fah1e8cjb38aebcba1e3i21e4cie81h27544cjacjj116f9gfd3bj2c3718h base 20)))),
    ("_12C652FF96BC7G6FAH1E8CJB38AEBCBA1E3I21E4CIE81H27544CJACJJ116F9GFD3BJ2C3718H base 20", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_12C652FF96BC7G6FAH1E8CJB38AEBCBA1E3I21E4CIE81H27544CJACJJ116F9GFD3BJ2C3718H base 20), None),
    ("_dc8h945982jb86a21a71bh027h9bceeb8hihhbfjg8ad71cdg9c0 base 20", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_dc8h945982jb86a21a71bh027h9bceeb8hihhbfjg8ad71cdg9c0 base 20), None),
    ("_DC8H945982JB86A21A71BH027H9BCEEB8HIHHBFJG8AD71CDG9C0 base 20", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_DC8H945982JB86A21A71BH027H9BCEEB8HIHHBFJG8AD71CDG9C0 base 20), Some((|| ibig!(_DC8H945982JB86A21A71BH027H9BCEEB8HIHHBFJG8AD71CDG9C0 base 20), || ibig!(-_DC8H945982JB86A21A71BH027H9BCEEB8HIHHBFJG8AD71CDG9C0 base 20)))),
    ("DC8H945982JB86A21A71BH027H9BCEEB8HIHHBFJG8AD71CDG9C0 base 20", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(DC8H945982JB86A21A71BH027H9BCEEB8HIHHBFJG8AD71CDG9C0 base 20), None),
    ("_1000000000000 base 20", Some("e8d4a51000000"), || ubig!(_1000000000000 base 20), None),
    ("_jjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjj base 20", Some("1d6329f1c35ca4bfabb9f560ffffffffffffffffffff"), || ubig!(_jjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjj base 20), Some((|| ibig!(_jjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjj base 20), || ibig!(-_jjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjj base 20)))),
    ("_JJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJ base 20", Some("1d6329f1c35ca4bfabb9f560ffffffffffffffffffff"), || ubig!(_JJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJ base 20), None),
    ("JJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJ base 20", Some("1d6329f1c35ca4bfabb9f560ffffffffffffffffffff"), || ubig!(JJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJJ base 20), None),
    ("_100000000000000000000000000000000000000000 base 20", Some("24bbf46e3433cdef96a872b9400000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 20), Some((|| ibig!(_100000000000000000000000000000000000000000 base 20), || ibig!(-_100000000000000000000000000000000000000000 base 20)))),
    ("_1_0 base 20", None, || ubig!(_1_0 base 20), None),
    ("__1 base 20", None, || ubig!(__1 base 20), None),
    ("1_0 base 20", None, || ubig!(1_0 base 20), Some((|| ibig!(1_0 base 20), || ibig!(-1_0 base 20)))),
    ("_0 base 21", Some("0"), || ubig!(_0 base 21), None),
    ("0 base 21", Some("0"), || ubig!(0 base 21), None),
    ("_1 base 21", Some("1"), || ubig!(_1 base 21), Some((|| ibig!(_1 base 21), || ibig!(-_1 base 21)))),
    ("1 base 21", Some("1"), || ubig!(1 base 21), None),
    ("_a base 21", Some("a"), || ubig!(_a base 21), None),
    ("a base 21", Some("a"), || ubig!(a base 21), Some((|| ibig!(a base 21), || ibig!(-a base 21)))),
    ("_k base 21", Some("14"), || ubig!(_k base 21), None),
    ("k base 21", Some("14"), || ubig!(k base 21), None),
    ("_l base 21", None, || ubig!(_l base 21), Some((|| ibig!(_l base 21), || ibig!(-_l base 21)))),
    ("l base 21", None, || ubig!(l base 21), None),
    ("_00 base 21", Some("0"), || ubig!(_00 base 21), None),
    ("00 base 21", Some("0"), || ubig!(00 base 21), Some((|| ibig!(00 base 21), || ibig!(-00 base 21)))),
    ("_01 base 21", Some("1"), || ubig!(_01 base 21), None),
    ("01 base 21", Some("1"), || ubig!(01 base 21), None),
    ("_0a base 21", Some("a"), || ubig!(_0a base 21), Some((|| ibig!(_0a base 21), || ibig!(-_0a base 21)))),
    ("_0k base 21", Some("14"), || ubig!(_0k base 21), None),
    ("_0l base 21", None, || ubig!(_0l base 21), None),
    ("_10 base 21", Some("15"), || ubig!(_10 base 21), Some((|| ibig!(_10 base 21), || ibig!(-_10 base 21)))),
    ("10 base 21", Some("15"), || ubig!(10 base 21), None),
    ("_11 base 21", Some("16"), || ubig!(_11 base 21), None),
    ("11 base 21", Some("16"), || ubig!(11 base 21), Some((|| ibig!(11 base 21), || ibig!(-11 base 21)))),
    ("_1a base 21", Some("1f"), || ubig!(_1a base 21), None),
    ("_1k base 21", Some("29"), || ubig!(_1k base 21), None),
    ("_1l base 21", None, || ubig!(_1l base 21), Some((|| ibig!(_1l base 21), || ibig!(-_1l base 21)))),
    ("_a0 base 21", Some("d2"), || ubig!(_a0 base 21), None),
    ("a0 base 21", Some("d2"), || ubig!(a0 base 21), None),
    ("_a1 base 21", Some("d3"), || ubig!(_a1 base 21), Some((|| ibig!(_a1 base 21), || ibig!(-_a1 base 21)))),
    ("a1 base 21", Some("d3"), || ubig!(a1 base 21), None),
    ("_aa base 21", Some("dc"), || ubig!(_aa base 21), None),
    ("aa base 21", Some("dc"), || ubig!(aa base 21), Some((|| ibig!(aa base 21), || ibig!(-aa base 21)))),
    ("_ak base 21", Some("e6"), || ubig!(_ak base 21), None),
    ("ak base 21", Some("e6"), || ubig!(ak base 21), None),
    ("_al base 21", None, || ubig!(_al base 21), Some((|| ibig!(_al base 21), || ibig!(-_al base 21)))),
    ("al base 21", None, || ubig!(al base 21), None),
    ("_k0 base 21", Some("1a4"), || ubig!(_k0 base 21), None),
    ("k0 base 21", Some("1a4"), || ubig!(k0 base 21), Some((|| ibig!(k0 base 21), || ibig!(-k0 base 21)))),
    ("_k1 base 21", Some("1a5"), || ubig!(_k1 base 21), None),
    ("k1 base 21", Some("1a5"), || ubig!(k1 base 21), None),
];
pub static PART24: &[Row] = &[
    ("_ka base 21", Some("1ae"), || ubig!(_ka base 21), Some((|| ibig!(_ka base 21), || ibig!(-_ka base 21)))),
    ("ka base 21", Some("1ae"), || ubig!(ka base 21), None),
    ("_kk base 21", Some("1b8"), || ubig!(_kk base 21), None),
    ("kk base 21", Some("1b8"), || ubig!(kk base 21), Some((|| ibig!(kk base 21), || ibig!(-kk base 21)))),
    ("_kl base 21", None, || ubig!(_kl base 21), None),
    ("kl base 21", None, || ubig!(kl base 21), None),
    ("_l0 base 21", None, || ubig!(_l0 base 21), Some((|| ibig!(_l0 base 21), || ibig!(-_l0 base 21)))),
    ("l0 base 21", None, || ubig!(l0 base 21), None),
    ("_l1 base 21", None, || ubig!(_l1 base 21), None),
    ("l1 base 21", None, || ubig!(l1 base 21), Some((|| ibig!(l1 base 21), || ibig!(-l1 base 21)))),
    ("_la base 21", None, || ubig!(_la base 21), None),
    ("la base 21", None, || ubig!(la base 21), None),
    ("_lk base 21", None, || ubig!(_lk base 21), Some((|| ibig!(_lk base 21), || ibig!(-_lk base 21)))),
    ("lk base 21", None, || ubig!(lk base 21), None),
    ("_ll base 21", None, || ubig!(_ll base 21), None),
    ("ll base 21", None, || ubig!(ll base 21), Some((|| ibig!(ll base 21), || ibig!(-ll base 21)))),
    ("_61 base 21", Some("7f"), || ubig!(_61 base 21), None),
    ("_3b68 base 21", Some("8000"), || ubig!(_3b68 base 21), None),
    ("_3B68 base 21", Some("8000"), || ubig!(_3B68 base 21), Some((|| ibig!(_3B68 base 21), || ibig!(-_3B68 base 21)))),
    ("_e34c base 21", Some("20001"), || ubig!(_e34c base 21), None),
    ("_E34C base 21", Some("20001"), || ubig!(_E34C base 21), None),
    ("E34C base 21", Some("20001"), || ubig!(E34C base 21), Some((|| ibig!(E34C base 21), || ibig!(-E34C base 21)))),
    ("_4g35abf7 base 21", Some("1ffffffff"), || ubig!(_4g35abf7 base 21), None),
    ("_4G35ABF7 base 21", Some("1ffffffff"), || ubig!(_4G35ABF7 base 21), None),
    ("_gi7ja09c131 base 21", Some("1000000000000"), || ubig!(_gi7ja09c131 base 21), Some((|| ibig!(_gi7ja09c131 base 21), || ibig!(-_gi7ja09c131 base 21)))),
    ("_GI7JA09C131 base 21", Some("1000000000000"), || ubig!(_GI7JA09C131 base 21), None),
    ("GI7JA09C131 base 21", Some("1000000000000"), || ubig!(GI7JA09C131 base 21), None),
    ("_5e8g4ggg7g56dih base 21", Some("10000000000000001"), || ubig!(_5e8g4ggg7g56dih base 21), Some((|| ibig!(_5e8g4ggg7g56dih base 21), || ibig!(-_5e8g4ggg7g56dih base 21)))),
    ("_5E8G4GGG7G56DIH base 21", Some("10000000000000001"), || ubig!(_5E8G4GGG7G56DIH base 21), None),
    ("_1j5187gaafj9e7g5193 base 21", Some("ffffffffffffffffffff"), || ubig!(_1j5187gaafj9e7g5193 base 21), None),
    ("_1J5187GAAFJ9E7G5193 base 21", Some("ffffffffffffffffffff"), || ubig!(_1J5187GAAFJ9E7G5193 base 21), Some((|| ibig!(_1J5187GAAFJ9E7G5193 base 21), || ibig!(-_1J5187GAAFJ9E7G5193 base 21)))),
    ("_dbg38df29889ad7hj89b61 base 21", Some("1000000000000000000000000"), || ubig!(_dbg38df29889ad7hj89b61 base 21), None),
    ("_DBG38DF29889AD7HJ89B61 base 21", Some("1000000000000000000000000"), || ubig!(_DBG38DF29889AD7HJ89B61 base 21), None),
    ("DBG38DF29889AD7HJ89B61 base 21", Some("1000000000000000000000000"), || ubig!(DBG38DF29889AD7HJ89B61 base 21), Some((|| ibig!(DBG38DF29889AD7HJ89B61 base 21), || ibig!(-DBG38DF29889AD7HJ89B61 base 21)))),
    ("_g3b663ge01jk6cica417i3a75c603 base 21", Some("80000000000000000000000000000001"), || ubig!(_g3b663ge01jk6cica417i3a75c603 base 21), None),
    ("_G3B663GE01JK6CICA417I3A75C603 base 21", Some("80000000000000000000000000000001"), || ubig!(_G3B663GE01JK6CICA417I3A75C603 base 21), None),
    ("G3B663GE01JK6CICA417I3A75C603 base 21", Some("80000000000000000000000000000001"), || ubig!(G3B663GE01JK6CICA417I3A75C603 base 21), Some((|| ibig!(G3B663GE01JK6CICA417I3A75C603 base 21), || ibig!(-G3B663GE01JK6CICA417I3A75C603 base 21)))),
    ("_3e27bbfakd57hga1ak9hk44j748fk8i7bk89f base 21", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_3e27bbfakd57hga1ak9hk44j748fk8i7bk89f base 21), None),
    ("_3E27BBFAKD57HGA1AK9HK44J748FK8I7BK89F base 21", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_3E27BBFAKD57HGA1AK9HK44J748FK8I7BK89F base 21), None),
    ("_13ihd4c9e83gc6860126970hb112g64gch3dheg5098a58ijg8ef0dbe608 base 21", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_13ihd4c9e83gc6860126970hb112g64gch3dheg5098a58ijg8ef0dbe608 base 21), Some((|| ibig!(_13ihd4c9e83gc6860126970hb112g64gch3dheg5098a58ijg8ef0dbe608 base 21), || ibig!(-_13ihd4c9e83gc6860126970hb112g64gch3dheg5098a58ijg8ef0dbe608 base 21)))),
    ("_13IHD4C9E83GC6860126970HB112G64GCH3DHEG5098A58IJG8EF0DBE608 base 21", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_13IHD4C9E83GC6860126970HB112G64GCH3DHEG5098A58IJG8EF0DBE608 base 21), None),
    ("_da36d701e75kkk45a7ag82fkggh2ce17g61617a9f8kg4jf8ab8f4b01f7hacf13hid3g2f65 base 21", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_da36d701e75kkk45a7ag82fkggh2ce17g61617a9f8kg4jf8ab8f4b01f7hacf13hid3g2f65 base 21), None),
    ("_DA36D701E75KKK45A7AG82FKGGH2CE17G61617A9F8KG4JF8AB8F4B01F7HACF13HID3G2F65 base 21", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_DA36D701E75KKK45A7AG82FKGGH2CE17G61617A9F8KG4JF8AB8F4B01F7HACF13HID3G2F65 base 21), Some((|| ibig!(_DA36D701E75KKK45A7AG82FKGGH2CE17G61617A9F8KG4JF8AB8F4B01F7HACF13HID3G2F65 base 21), || ibig!(-_DA36D701E75KKK45A7AG82FKGGH2CE17G61617A9F8KG4JF8AB8F4B01F7HACF13HID3G2F65 base 21)))),
    ("DA36D701E75KKK45A7AG82FKGGH2CE17G61617A9F8KG4JF8AB8F4B01F7HACF13HID3G2F65 base 21", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(DA36D701E75KKK45A7AG82FKGGH2CE17G61617A9F8KG4JF8AB8F4B01F7HACF13HID3G2F65 base 21), None),
    ("_12fj6g8873cbdc58bh8h5hff590h57haa8gbeed9i470c89ki6j3 base 21", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_12fj6g8873cbdc58bh8h5hff590h57haa8gbeed9i470c89ki6j3 base 21), None),
    ("_12FJ6G8873CBDC58BH8H5HFF590H57HAA8GBEED9I470C89KI6J3 base 21", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_12FJ6G8873CBDC58BH8H5HFF590H57HAA8GBEED9I470C89KI6J3 base 21), Some((|| ibig!(_12FJ6G8873CBDC58BH8H5HFF590H57HAA8GBEED9I470C89KI6J3 base 21), || ibig!(-_12FJ6G8873CBDC58BH8H5HFF590H57HAA8GBEED9I470C89KI6J3 base 21)))),
    ("_1000000000000 base 21", Some("1a22160dd86211"), || ubig!(_1000000000000 base 21), None),
    ("_kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk base 21", Some("cee2fd119ec6cce5c25be50e7949c1dae2c856eb91e0"), || ubig!(_kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk base 21), None),
    ("_KKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKK base 21", Some("cee2fd119ec6cce5c25be50e7949c1dae2c856eb91e0"), || ubig!(_KKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKK base 21), Some((|| ibig!(_KKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKK base 21), || ibig!(-_KKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKK base 21)))),
    ("KKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKK base 21", Some("cee2fd119ec6cce5c25be50e7949c1dae2c856eb91e0"), || ubig!(KKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKK base 21), None),
    ("_100000000000000000000000000000000000000000 base 21", Some("10f89ec272064eced8f189ca2ff30ce6f49a6f2152f775"), || ubig!(_100000000000000000000000000000000000000000 base 21), None),
    ("_1_0 base 21", None, || ubig!(_1_0 base 21), Some((|| ibig!(_1_0 base 21), || ibig!(-_1_0 base 21)))),
    ("__1 base 21", None, || ubig!(__1 base 21), None),
    ("1_0 base 21", None, || ubig!(1_0 base 21), None),
    ("_0 base 22", Some("0"), || ubig!(_0 base 22), Some((|| ibig!(_0 base 22), || ibig!(-_0 base 22)))),
    ("0 base 22", Some("0"), || ubig!(0 base 22), None),
    ("_1 base 22", Some("1"), || ubig!(_1 base 22), None),
    ("1 base 22", Some("1"), || ubig!(1 base 22), Some((|| ibig!(1 base 22), || ibig!(-1 base 22)))),
    ("_b base 22", Some("b"), || ubig!(_b base 22), None),
    ("b base 22", Some("b"), || ubig!(b base 22), None),
    ("_l base 22", Some("15"), || ubig!(_l base 22), Some((|| ibig!(_l base 22), || ibig!(-_l base 22)))),
    ("l base 22", Some("15"), || ubig!(l base 22), None),
    ("_m base 22", None, || ubig!(_m base 22), None),
    ("m base 22", None, || ubig!(m base 22), Some((|| ibig!(m base 22), || ibig!(-m base 22)))),
    ("_00 base 22", Some("0"), || ubig!(_00 base 22), None),
    ("00 base 22", Some("0"), || ubig!(00 base 22), None),
    ("_01 base 22", Some("1"), || ubig!(_01 base 22), Some((|| ibig!(_01 base 22), || ibig!(-_01 base 22)))),
    ("01 base 22", Some("1"), || ubig!(01 base 22), None),
    ("_0b base 22", Some("b"), || ubig!(_0b base 22), None),
    ("_0l base 22", Some("15"), || ubig!(_0l base 22), Some((|| ibig!(_0l base 22), || ibig!(-_0l base 22)))),
    ("_0m base 22", None, || ubig!(_0m base 22), None),
    ("_10 base 22", Some("16"), || ubig!(_10 base 22), None),
    ("10 base 22", Some("16"), || ubig!(10 base 22), Some((|| ibig!(10 base 22), || ibig!(-10 base 22)))),
    ("_11 base 22", Some("17"), || ubig!(_11 base 22), None),
    ("11 base 22", Some("17"), || ubig!(11 base 22), None),
    ("_1b base 22", Some("21"), || ubig!(_1b base 22), Some((|| ibig!(_1b base 22), || ibig!(-_1b base 22)))),
    ("_1l base 22", Some("2b"), || ubig!(_1l base 22), None),
    ("_1m base 22", None, || ubig!(_1m base 22), None),
    ("_b0 base 22", Some("f2"), || ubig!(_b0 base 22), Some((|| ibig!(_b0 base 22), || ibig!(-_b0 base 22)))),
    ("b0 base 22", Some("f2"), || ubig!(b0 base 22), None),
    ("_b1 base 22", Some("f3"), || ubig!(_b1 base 22), None),
    ("b1 base 22", Some("f3"), || ubig!(b1 base 22), Some((|| ibig!(b1 base 22), || ibig!(-b1 base 22)))),
    ("_bb base 22", Some("fd"), || ubig!(_bb base 22), None),
    ("bb base 22", Some("fd"), || ubig!(bb base 22), None),
    ("_bl base 22", Some("107"), || ubig!(_bl base 22), Some((|| ibig!(_bl base 22), || ibig!(-_bl base 22)))),
    ("bl base 22", Some("107"), || ubig!(bl base 22), None),
    ("_bm base 22", None, || ubig!(_bm base 22), None),
    ("bm base 22", None, || ubig!(bm base 22), Some((|| ibig!(bm base 22), || ibig!(-bm base 22)))),
    ("_l0 base 22", Some("1ce"), || ubig!(_l0 base 22), None),
    ("l0 base 22", Some("1ce"), || ubig!(l0 base 22), None),
    ("_l1 base 22", Some("1cf"), || ubig!(_l1 base 22), Some((|| ibig!(_l1 base 22), || ibig!(-_l1 base 22)))),
    ("l1 base 22", Some("1cf"), || ubig!(l1 base 22), None),
    ("_lb base 22", Some("1d9"), || ubig!(_lb base 22), None),
    ("lb base 22", Some("1d9"), || ubig!(lb base 22), Some((|| ibig!(lb base 22), || ibig!(-lb base 22)))),
    ("_ll base 22", Some("1e3"), || ubig!(_ll base 22), None),
    ("ll base 22", Some("1e3"), || ubig!(ll base 22), None),
    ("_lm base 22", None, || ubig!(_lm base 22), Some((|| ibig!(_lm base 22), || ibig!(-_lm base 22)))),
    ("lm base 22", None, || ubig!(lm base 22), None),
    ("_m0 base 22", None, || ubig!(_m0 base 22), None),
    ("m0 base 22", None, || ubig!(m0 base 22), Some((|| ibig!(m0 base 22), || ibig!(-m0 base 22)))),
    ("_m1 base 22", None, || ubig!(_m1 base 22), None),
    ("m1 base 22", None, || ubig!(m1 base 22), None),
    ("_mb base 22", None, || ubig!(_mb base 22), Some((|| ibig!(_mb base 22), || ibig!(-_mb base 22)))),
    ("mb base 22", None, || ubig!(mb base 22), None),
    ("_ml base 22", None, || ubig!(_ml base 22), None),
    ("ml base 22", None, || ubig!(ml base 22), Some((|| ibig!(ml base 22), || ibig!(-ml base 22)))),
    ("_mm base 22", None, || ubig!(_mm base 22), None),
    ("mm base 22", None, || ubig!(mm base 22), None),
    ("_5h base 22", Some("7f"), || ubig!(_5h base 22), Some((|| ibig!(_5h base 22), || ibig!(-_5h base 22)))),
    ("_5H base 22", Some("7f"), || ubig!(_5H base 22), None),
    ("_31fa base 22", Some("8000"), || ubig!(_31fa base 22), None),
    ("_31FA base 22", Some("8000"), || ubig!(_31FA base 22), Some((|| ibig!(_31FA base 22), || ibig!(-_31FA base 22)))),
    ("_c6hj base 22", Some("20001"), || ubig!(_c6hj base 22), None),
    ("_C6HJ base 22", Some("20001"), || ubig!(_C6HJ base 22), None),
    ("C6HJ base 22", Some("20001"), || ubig!(C6HJ base 22), Some((|| ibig!(C6HJ base 22), || ibig!(-C6HJ base 22)))),
    ("_39gh02g7 base 22", Some("1ffffffff"), || ubig!(_39gh02g7 base 22), None),
    ("_39GH02G7 base 22", Some("1ffffffff"), || ubig!(_39GH02G7 base 22), None),
    ("_ad36ed3ggje base 22", Some("1000000000000"), || ubig!(_ad36ed3ggje base 22), Some((|| ibig!(_ad36ed3ggje base 22), || ibig!(-_ad36ed3ggje base 22)))),
    ("_AD36ED3GGJE base 22", Some("1000000000000"), || ubig!(_AD36ED3GGJE base 22), None),
    ("AD36ED3GGJE base 22", Some("1000000000000"), || ubig!(AD36ED3GGJE base 22), None),
    ("_2l4lf104353j8kh base 22", Some("10000000000000001"), || ubig!(_2l4lf104353j8kh base 22), Some((|| ibig!(_2l4lf104353j8kh base 22), || ibig!(-_2l4lf104353j8kh base 22)))),
    ("_2L4LF104353J8KH base 22", Some("10000000000000001"), || ubig!(_2L4LF104353J8KH base 22), None),
    ("_i5a03g849bfe4a1ieb base 22", Some("ffffffffffffffffffff"), || ubig!(_i5a03g849bfe4a1ieb base 22), None),
    ("_I5A03G849BFE4A1IEB base 22", Some("ffffffffffffffffffff"), || ubig!(_I5A03G849BFE4A1IEB base 22), Some((|| ibig!(_I5A03G849BFE4A1IEB base 22), || ibig!(-_I5A03G849BFE4A1IEB base 22)))),
    ("I5A03G849BFE4A1IEB base 22", Some("ffffffffffffffffffff"), || ubig!(I5A03G849BFE4A1IEB base 22), None),
    ("_526ile2lf1c7kag917fjck base 22", Some("1000000000000000000000000"), || ubig!(_526ile2lf1c7kag917fjck base 22), None),
    ("_526ILE2LF1C7KAG917FJCK base 22", Some("1000000000000000000000000"), || ubig!(_526ILE2LF1C7KAG917FJCK base 22), Some((|| ibig!(_526ILE2LF1C7KAG917FJCK base 22), || ibig!(-_526ILE2LF1C7KAG917FJCK base 22)))),
    ("_48f5dj8i8eli87ecigb8g6egjhchj base 22", Some("80000000000000000000000000000001"), || ubig!(_48f5dj8i8eli87ecigb8g6egjhchj base 22), None),
    ("_48F5DJ8I8ELI87ECIGB8G6EGJHCHJ base 22", Some("80000000000000000000000000000001"), || ubig!(_48F5DJ8I8ELI87ECIGB8G6EGJHCHJ base 22), None),
    ("_f2lg0ge5jfc061gh7d76923ed40j7f0175cb base 22", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_f2lg0ge5jfc061gh7d76923ed40j7f0175cb base 22), Some((|| ibig!(_f2lg0ge5jfc061gh7d76923ed40j7f0175cb base 22), || ibig!(-_f2lg0ge5jfc061gh7d76923ed40j7f0175cb base 22)))),
    ("_F2LG0GE5JFC061GH7D76923ED40J7F0175CB base 22", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_F2LG0GE5JFC061GH7D76923ED40J7F0175CB base 22), None),
    ("F2LG0GE5JFC061GH7D76923ED40J7F0175CB base 22", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(F2LG0GE5JFC061GH7D76923ED40J7F0175CB base 22), None),
    ("_1gdl59h8c73453609lacbklajh37ika1g3d9d0idb44klhcfl46043i2la base 22", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_1gdl59h8c73453609lacbklajh37ika1g3d9d0idb44klhcfl46043i2la base 22), Some((|| ibig!(_1gdl59h8c73453609lacbklajh37ika1g3d9d0idb44klhcfl46043i2la base 22), || ibig!(-_1gdl59h8c73453609lacbklajh37ika1g3d9d0idb44klhcfl46043i2la base 22)))),
    ("_1GDL59H8C73453609LACBKLAJH37IKA1G3D9D0IDB44KLHCFL46043I2LA base 22", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_1GDL59H8C73453609LACBKLAJH37IKA1G3D9D0IDB44KLHCFL46043I2LA base 22), None),
    ("_a920h8ldb9801fgakc263fj1i527h8a1151gieba8gc01l7jj9fg2e20i7cf4928b5gaed8d base 22", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_a920h8ldb9801fgakc263fj1i527h8a1151gieba8gc01l7jj9fg2e20i7cf4928b5gaed8d base 22), None),
    ("_A920H8LDB9801FGAKC263FJ1I527H8A1151GIEBA8GC01L7JJ9FG2E20I7CF4928B5GAED8D base 22", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_A920H8LDB9801FGAKC263FJ1I527H8A1151GIEBA8GC01L7JJ9FG2E20I7CF4928B5GAED8D base 22), Some((|| ibig!(_A920H8LDB9801FGAKC263FJ1I527H8A1151GIEBA8GC01L7JJ9FG2E20I7CF4928B5GAED8D base 22), || ibig!(-_A920H8LDB9801FGAKC263FJ1I527H8A1151GIEBA8GC01L7JJ9FG2E20I7CF4928B5GAED8D base 22)))),
    ("A920H8LDB9801FGAKC263FJ1I527H8A1151GIEBA8GC01L7JJ9FG2E20I7CF4928B5GAED8D base 22", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(A920H8LDB9801FGAKC263FJ1I527H8A1151GIEBA8GC01L7JJ9FG2E20I7CF4928B5GAED8D base 22), None),
    ("_27163528ibik4j5hj9a3jge0gc3adf33kk79aa45febkf6719b2 base 22", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_27163528ibik4j5hj9a3jge0gc3adf33kk79aa45febkf6719b2 base 22), None),
    ("_27163528IBIK4J5HJ9A3JGE0GC3ADF33KK79AA45FEBKF6719B2 base 22", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_27163528IBIK4J5HJ9A3JGE0GC3ADF33KK79AA45FEBKF6719B2 base 22), Some((|| ibig!(_27163528IBIK4J5HJ9A3JGE0GC3ADF33KK79AA45FEBKF6719B2 base 22), || ibig!(-_27163528IBIK4J5HJ9A3JGE0GC3ADF33KK79AA45FEBKF6719B2 base 22)))),
    ("_1000000000000 base 22", Some("2dab8e89691000"), || ubig!(_1000000000000 base 22), None),
    ("_llllllllllllllllllllllllllllllllllllllll base 22", Some("5320ccb8f3676cc1e193dfe212861c730e0ffffffffff"), || ubig!(_llllllllllllllllllllllllllllllllllllllll base 22), None),
    ("_LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL base 22", Some("5320ccb8f3676cc1e193dfe212861c730e0ffffffffff"), || ubig!(_LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL base 22), Some((|| ibig!(_LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL base 22), || ibig!(-_LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL base 22)))),
    ("LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL base 22", Some("5320ccb8f3676cc1e193dfe212861c730e0ffffffffff"), || ubig!(LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL base 22), None),
    ("_100000000000000000000000000000000000000000 base 22", Some("724d197e4eae358a962b53d6d978671e33560000000000"), || ubig!(_100000000000000000000000000000000000000000 base 22), None),
    ("_1_0 base 22", None, || ubig!(_1_0 base 22), Some((|| ibig!(_1_0 base 22), || ibig!(-_1_0 base 22)))),
    ("__1 base 22", None, || ubig!(__1 base 22), None),
    ("1_0 base 22", None, || ubig!(1_0 base 22), None),
    ("_0 base 23", Some("0"), || ubig!(_0 base 23), Some((|| ibig!(_0 base 23), || ibig!(-_0 base 23)))),
    ("0 base 23", Some("0"), || ubig!(0 base 23), None),
    ("_1 base 23", Some("1"), || ubig!(_1 base 23), None),
];
pub static PART25: &[Row] = &[
    ("1 base 23", Some("1"), || ubig!(1 base 23), Some((|| ibig!(1 base 23), || ibig!(-1 base 23)))),
    ("_b base 23", Some("b"), || ubig!(_b base 23), None),
    ("b base 23", Some("b"), || ubig!(b base 23), None),
    ("_m base 23", Some("16"), || ubig!(_m base 23), Some((|| ibig!(_m base 23), || ibig!(-_m base 23)))),
    ("m base 23", Some("16"), || ubig!(m base 23), None),
    ("_n base 23", None, || ubig!(_n base 23), None),
    ("n base 23", None, || ubig!(n base 23), Some((|| ibig!(n base 23), || ibig!(-n base 23)))),
    ("_00 base 23", Some("0"), || ubig!(_00 base 23), None),
    ("00 base 23", Some("0"), || ubig!(00 base 23), None),
    ("_01 base 23", Some("1"), || ubig!(_01 base 23), Some((|| ibig!(_01 base 23), || ibig!(-_01 base 23)))),
    ("01 base 23", Some("1"), || ubig!(01 base 23), None),
    ("_0b base 23", Some("b"), || ubig!(_0b base 23), None),
    ("_0m base 23", Some("16"), || ubig!(_0m base 23), Some((|| ibig!(_0m base 23), || ibig!(-_0m base 23)))),
    ("_0n base 23", None, || ubig!(_0n base 23), None),
    ("_10 base 23", Some("17"), || ubig!(_10 base 23), None),
    ("10 base 23", Some("17"), || ubig!(10 base 23), Some((|| ibig!(10 base 23), || ibig!(-10 base 23)))),
    ("_11 base 23", Some("18"), || ubig!(_11 base 23), None),
    ("11 base 23", Some("18"), || ubig!(11 base 23), None),
    ("_1b base 23", Some("22"), || ubig!(_1b base 23), Some((|| ibig!(_1b base 23), || ibig!(-_1b base 23)))),
    ("_1m base 23", Some("2d"), || ubig!(_1m base 23), None),
    ("_1n base 23", None, || ubig!(_1n base 23), None),
    ("_b0 base 23", Some("fd"), || ubig!(_b0 base 23), Some((|| ibig!(_b0 base 23), || ibig!(-_b0 base 23)))),
    ("b0 base 23", Some("fd"), || ubig!(b0 base 23), None),
    ("_b1 base 23", Some("fe"), || ubig!(_b1 base 23), None),
    ("b1 base 23", Some("fe"), || ubig!(b1 base 23), Some((|| ibig!(b1 base 23), || ibig!(-b1 base 23)))),
    ("_bb base 23", Some("108"), || ubig!(_bb base 23), None),
    ("bb base 23", Some("108"), || ubig!(bb base 23), None),
    ("_bm base 23", Some("113"), || ubig!(_bm base 23), Some((|| ibig!(_bm base 23), || ibig!(-_bm base 23)))),
    ("bm base 23", Some("113"), || ubig!(bm base 23), None),
    ("_bn base 23", None, || ubig!(_bn base 23), None),
    ("bn base 23", None, || ubig!(bn base 23), Some((|| ibig!(bn base 23), || ibig!(-bn base 23)))),
    ("_m0 base 23", Some("1fa"), || ubig!(_m0 base 23), None),
    ("m0 base 23", Some("1fa"), || ubig!(m0 base 23), None),
    ("_m1 base 23", Some("1fb"), || ubig!(_m1 base 23), Some((|| ibig!(_m1 base 23), || ibig!(-_m1 base 23)))),
    ("m1 base 23", Some("1fb"), || ubig!(m1 base 23), None),
    ("_mb base 23", Some("205"), || ubig!(_mb base 23), None),
    ("mb base 23", Some("205"), || ubig!(mb base 23), Some((|| ibig!(mb base 23), || ibig!(-mb base 23)))),
    ("_mm base 23", Some("210"), || ubig!(_mm base 23), None),
    ("mm base 23", Some("210"), || ubig!(mm base 23), None),
    ("_mn base 23", None, || ubig!(_mn base 23), Some((|| ibig!(_mn base 23), || ibig!(-_mn base 23)))),
    ("mn base 23", None, || ubig!(mn base 23), None),
    ("_n0 base 23", None, || ubig!(_n0 base 23), None),
    ("n0 base 23", None, || ubig!(n0 base 23), Some((|| ibig!(n0 base 23), || ibig!(-n0 base 23)))),
    ("_n1 base 23", None, || ubig!(_n1 base 23), None),
    ("n1 base 23", None, || ubig!(n1 base 23), None),
    ("_nb base 23", None, || ubig!(_nb base 23), Some((|| ibig!(_nb base 23), || ibig!(-_nb base 23)))),
    ("nb base 23", None, || ubig!(nb base 23), None),
    ("_nm base 23", None, || ubig!(_nm base 23), None),
    ("nm base 23", None, || ubig!(nm base 23), Some((|| ibig!(nm base 23), || ibig!(-nm base 23)))),
    ("_nn base 23", None, || ubig!(_nn base 23), None),
    ("nn base 23", None, || ubig!(nn base 23), None),
    ("_5c base 23", Some("7f"), || ubig!(_5c base 23), Some((|| ibig!(_5c base 23), || ibig!(-_5c base 23)))),
    ("_5C base 23", Some("7f"), || ubig!(_5C base 23), None),
    ("_2flg base 23", Some("8000"), || ubig!(_2flg base 23), None),
    ("_2FLG base 23", Some("8000"), || ubig!(_2FLG base 23), Some((|| ibig!(_2FLG base 23), || ibig!(-_2FLG base 23)))),
    ("_ahhj base 23", Some("20001"), || ubig!(_ahhj base 23), None),
    ("_AHHJ base 23", Some("20001"), || ubig!(_AHHJ base 23), None),
    ("AHHJ base 23", Some("20001"), || ubig!(AHHJ base 23), Some((|| ibig!(AHHJ base 23), || ibig!(-AHHJ base 23)))),
    ("_2c0dhfe0 base 23", Some("1ffffffff"), || ubig!(_2c0dhfe0 base 23), None),
    ("_2C0DHFE0 base 23", Some("1ffffffff"), || ubig!(_2C0DHFE0 base 23), None),
    ("_6i679k2i7fg base 23", Some("1000000000000"), || ubig!(_6i679k2i7fg base 23), Some((|| ibig!(_6i679k2i7fg base 23), || ibig!(-_6i679k2i7fg base 23)))),
    ("_6I679K2I7FG base 23", Some("1000000000000"), || ubig!(_6I679K2I7FG base 23), None),
    ("_1ddh88h2782i517 base 23", Some("10000000000000001"), || ubig!(_1ddh88h2782i517 base 23), None),
    ("_1DDH88H2782I517 base 23", Some("10000000000000001"), || ubig!(_1DDH88H2782I517 base 23), Some((|| ibig!(_1DDH88H2782I517 base 23), || ibig!(-_1DDH88H2782I517 base 23)))),
    ("_8d3036j7g0gk0m63g7 base 23", Some("ffffffffffffffffffff"), || ubig!(_8d3036j7g0gk0m63g7 base 23), None),
    ("_8D3036J7G0GK0M63G7 base 23", Some("ffffffffffffffffffff"), || ubig!(_8D3036J7G0GK0M63G7 base 23), None),
    ("_203ijblbeemk334hfl1a83 base 23", Some("1000000000000000000000000"), || ubig!(_203ijblbeemk334hfl1a83 base 23), Some((|| ibig!(_203ijblbeemk334hfl1a83 base 23), || ibig!(-_203ijblbeemk334hfl1a83 base 23)))),
    ("_203IJBLBEEMK334HFL1A83 base 23", Some("1000000000000000000000000"), || ubig!(_203IJBLBEEMK334HFL1A83 base 23), None),
    ("_162g6gam6d49ik37jk2mdcl41aj6j base 23", Some("80000000000000000000000000000001"), || ubig!(_162g6gam6d49ik37jk2mdcl41aj6j base 23), None),
    ("_162G6GAM6D49IK37JK2MDCL41AJ6J base 23", Some("80000000000000000000000000000001"), || ubig!(_162G6GAM6D49IK37JK2MDCL41AJ6J base 23), Some((|| ibig!(_162G6GAM6D49IK37JK2MDCL41AJ6J base 23), || ibig!(-_162G6GAM6D49IK37JK2MDCL41AJ6J base 23)))),
    ("_34adbjc108bj044cj8gj1f2imllh9f59lg5h base 23", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_34adbjc108bj044cj8gj1f2imllh9f59lg5h base 23), None),
    ("_34ADBJC108BJ044CJ8GJ1F2IMLLH9F59LG5H base 23", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_34ADBJC108BJ044CJ8GJ1F2IMLLH9F59LG5H base 23), None),
    ("_34gficbkmeka2ea4j60a251e8l19c7gli94244m2mjcl1662120f6kb04 base 23", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_34gficbkmeka2ea4j60a251e8l19c7gli94244m2mjcl1662120f6kb04 base 23), Some((|| ibig!(_34gficbkmeka2ea4j60a251e8l19c7gli94244m2mjcl1662120f6kb04 base 23), || ibig!(-_34gficbkmeka2ea4j60a251e8l19c7gli94244m2mjcl1662120f6kb04 base 23)))),
    ("_34GFICBKMEKA2EA4J60A251E8L19C7GLI94244M2MJCL1662120F6KB04 base 23", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_34GFICBKMEKA2EA4J60A251E8L19C7GLI94244M2MJCL1662120F6KB04 base 23), None),
    ("_a4e9f74225e0kk29kf20h6f6i79e1i13c7g8gfe541e9k8777m2klgj32adffm1d4c2mba3 base 23", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_a4e9f74225e0kk29kf20h6f6i79e1i13c7g8gfe541e9k8777m2klgj32adffm1d4c2mba3 base 23), None),
    ("_A4E9F74225E0KK29KF20H6F6I79E1I13C7G8GFE541E9K8777M2KLGJ32ADFFM1D4C2MBA3 base 23", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_A4E9F74225E0KK29KF20H6F6I79E1I13C7G8GFE541E9K8777M2KLGJ32ADFFM1D4C2MBA3 base 23), Some((|| ibig!(_A4E9F74225E0KK29KF20H6F6I79E1I13C7G8GFE541E9K8777M2KLGJ32ADFFM1D4C2MBA3 base 23), || ibig!(-_A4E9F74225E0KK29KF20H6F6I79E1I13C7G8GFE541E9K8777M2KLGJ32ADFFM1D4C2MBA3 base 23)))),
    ("A4E9F74225E0KK29KF20H6F6I79E1I13C7G8GFE541E9K8777M2KLGJ32ADFFM1D4C2MBA3 base 23", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(A4E9F74225E0KK29KF20H6F6I79E1I13C7G8GFE541E9K8777M2KLGJ32ADFFM1D4C2MBA3 base 23), None),
    ("_5hml3l30i17gcam19e6137ke7b464j2e31bm36k5gaca8814ag base 23", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_5hml3l30i17gcam19e6137ke7b464j2e31bm36k5gaca8814ag base 23), None),
    ("_5HML3L30I17GCAM19E6137KE7B464J2E31BM36K5GACA8814AG base 23", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_5HML3L30I17GCAM19E6137KE7B464J2E31BM36K5GACA8814AG base 23), Some((|| ibig!(_5HML3L30I17GCAM19E6137KE7B464J2E31BM36K5GACA8814AG base 23), || ibig!(-_5HML3L30I17GCAM19E6137KE7B464J2E31BM36K5GACA8814AG base 23)))),
    ("_1000000000000 base 23", Some("4ddb3c1ca81b61"), || ubig!(_1000000000000 base 23), None),
    ("_mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm base 23", Some("1ebfcd58b402f309aa26cb8c4d2ab9de55d5cea794a740"), || ubig!(_mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm base 23), None),
    ("_MMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMM base 23", Some("1ebfcd58b402f309aa26cb8c4d2ab9de55d5cea794a740"), || ubig!(_MMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMM base 23), Some((|| ibig!(_MMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMM base 23), || ibig!(-_MMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMM base 23)))),
    ("MMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMM base 23", Some("1ebfcd58b402f309aa26cb8c4d2ab9de55d5cea794a740"), || ubig!(MMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMM base 23), None),
    ("_100000000000000000000000000000000000000000 base 23", Some("2c33b72f82c43d5de497c499aeed6b2f9b635910e5b06d7"), || ubig!(_100000000000000000000000000000000000000000 base 23), None),
    ("_1_0 base 23", None, || ubig!(_1_0 base 23), Some((|| ibig!(_1_0 base 23), || ibig!(-_1_0 base 23)))),
    ("__1 base 23", None, || ubig!(__1 base 23), None),
    ("1_0 base 23", None, || ubig!(1_0 base 23), None),
    ("_0 base 24", Some("0"), || ubig!(_0 base 24), Some((|| ibig!(_0 base 24), || ibig!(-_0 base 24)))),
    ("0 base 24", Some("0"), || ubig!(0 base 24), None),
    ("_1 base 24", Some("1"), || ubig!(_1 base 24), None),
    ("1 base 24", Some("1"), || ubig!(1 base 24), Some((|| ibig!(1 base 24), || ibig!(-1 base 24)))),
    ("_c base 24", Some("c"), || ubig!(_c base 24), None),
    ("c base 24", Some("c"), || ubig!(c base 24), None),
    ("_n base 24", Some("17"), || ubig!(_n base 24), Some((|| ibig!(_n base 24), || ibig!(-_n base 24)))),
    ("n base 24", Some("17"), || ubig!(n base 24), None),
    ("_o base 24", None, || ubig!(_o base 24), None),
    ("o base 24", None, || ubig!(o base 24), Some((|| ibig!(o base 24), || ibig!(-o base 24)))),
    ("_00 base 24", Some("0"), || ubig!(_00 base 24), None),
    ("00 base 24", Some("0"), || ubig!(00 base 24), None),
    ("_01 base 24", Some("1"), || ubig!(_01 base 24), Some((|| ibig!(_01 base 24), || ibig!(-_01 base 24)))),
    ("01 base 24", Some("1"), || ubig!(01 base 24), None),
    ("_0c base 24", Some("c"), || ubig!(_0c base 24), None),
    ("_0n base 24", Some("17"), || ubig!(_0n base 24), Some((|| ibig!(_0n base 24), || ibig!(-_0n base 24)))),
    ("_0o base 24", None, || ubig!(_0o base 24), None),
    ("_10 base 24", Some("18"), || ubig!(_10 base 24), None),
    ("10 base 24", Some("18"), || ubig!(10 base 24), Some((|| ibig!(10 base 24), || ibig!(-10 base 24)))),
    ("_11 base 24", Some("19"), || ubig!(_11 base 24), None),
    ("11 base 24", Some("19"), || ubig!(11 base 24), None),
    ("_1c base 24", Some("24"), || ubig!(_1c base 24), Some((|| ibig!(_1c base 24), || ibig!(-_1c base 24)))),
    ("_1n base 24", Some("2f"), || ubig!(_1n base 24), None),
    ("_1o base 24", None, || ubig!(_1o base 24), None),
    ("_c0 base 24", Some("120"), || ubig!(_c0 base 24), Some((|| ibig!(_c0 base 24), || ibig!(-_c0 base 24)))),
    ("c0 base 24", Some("120"), || ubig!(c0 base 24), None),
    ("_c1 base 24", Some("121"), || ubig!(_c1 base 24), None),
    ("c1 base 24", Some("121"), || ubig!(c1 base 24), Some((|| ibig!(c1 base 24), || ibig!(-c1 base 24)))),
    ("_cc base 24", Some("12c"), || ubig!(_cc base 24), None),
    ("cc base 24", Some("12c"), || ubig!(cc base 24), None),
    ("_cn base 24", Some("137"), || ubig!(_cn base 24), Some((|| ibig!(_cn base 24), || ibig!(-_cn base 24)))),
    ("cn base 24", Some("137"), || ubig!(cn base 24), None),
    ("_co base 24", None, || ubig!(_co base 24), None),
    ("co base 24", None, || ubig!(co base 24), Some((|| ibig!(co base 24), || ibig!(-co base 24)))),
    ("_n0 base 24", Some("228"), || ubig!(_n0 base 24), None),
    ("n0 base 24", Some("228"), || ubig!(n0 base 24), None),
    ("_n1 base 24", Some("229"), || ubig!(_n1 base 24), Some((|| ibig!(_n1 base 24), || ibig!(-_n1 base 24)))),
    ("n1 base 24", Some("229"), || ubig!(n1 base 24), None),
    ("_nc base 24", Some("234"), || ubig!(_nc base 24), None),
    ("nc base 24", Some("234"), || ubig!(nc base 24), Some((|| ibig!(nc base 24), || ibig!(-nc base 24)))),
    ("_nn base 24", Some("23f"), || ubig!(_nn base 24), None),
    ("nn base 24", Some("23f"), || ubig!(nn base 24), None),
    ("_no base 24", None, || ubig!(_no base 24), Some((|| ibig!(_no base 24), || ibig!(-_no base 24)))),
    ("no base 24", None, || ubig!(no base 24), None),
    ("_o0 base 24", None, || ubig!(_o0 base 24), None),
    ("o0 base 24", None, || ubig!(o0 base 24), Some((|| ibig!(o0 base 24), || ibig!(-o0 base 24)))),
    ("_o1 base 24", None, || ubig!(_o1 base 24), None),
    ("o1 base 24", None, || ubig!(o1 base 24), None),
    ("_oc base 24", None, || ubig!(_oc base 24), Some((|| ibig!(_oc base 24), || ibig!(-_oc base 24)))),
    ("oc base 24", None, || ubig!(oc base 24), None),
    ("_on base 24", None, || ubig!(_on base 24), None),
    ("on base 24", None, || ubig!(on base 24), Some((|| ibig!(on base 24), || ibig!(-on base 24)))),
    ("_oo base 24", None, || ubig!(_oo base 24), None),
    ("oo base 24", None, || ubig!(oo base 24), None),
    ("_57 base 24", Some("7f"), || ubig!(_57 base 24), Some((|| ibig!(_57 base 24), || ibig!(-_57 base 24)))),
    ("_28l8 base 24", Some("8000"), || ubig!(_28l8 base 24), None),
    ("_28L8 base 24", Some("8000"), || ubig!(_28L8 base 24), None),
    ("_9bd9 base 24", Some("20001"), || ubig!(_9bd9 base 24), Some((|| ibig!(_9bd9 base 24), || ibig!(-_9bd9 base 24)))),
    ("_9BD9 base 24", Some("20001"), || ubig!(_9BD9 base 24), None),
    ("_1kmii8l7 base 24", Some("1ffffffff"), || ubig!(_1kmii8l7 base 24), None),
    ("_1KMII8L7 base 24", Some("1ffffffff"), || ubig!(_1KMII8L7 base 24), Some((|| ibig!(_1KMII8L7 base 24), || ibig!(-_1KMII8L7 base 24)))),
    ("_4ad2gl1g72g base 24", Some("1000000000000"), || ubig!(_4ad2gl1g72g base 24), None),
    ("_4AD2GL1G72G base 24", Some("1000000000000"), || ubig!(_4AD2GL1G72G base 24), None),
];
pub static PART26: &[Row] = &[
    ("_l12ee5fn0ji1ih base 24", Some("10000000000000001"), || ubig!(_l12ee5fn0ji1ih base 24), Some((|| ibig!(_l12ee5fn0ji1ih base 24), || ibig!(-_l12ee5fn0ji1ih base 24)))),
    ("_L12EE5FN0JI1IH base 24", Some("10000000000000001"), || ubig!(_L12EE5FN0JI1IH base 24), None),
    ("L12EE5FN0JI1IH base 24", Some("10000000000000001"), || ubig!(L12EE5FN0JI1IH base 24), None),
    ("_43ie39h1l4inb26caf base 24", Some("ffffffffffffffffffff"), || ubig!(_43ie39h1l4inb26caf base 24), Some((|| ibig!(_43ie39h1l4inb26caf base 24), || ibig!(-_43ie39h1l4inb26caf base 24)))),
    ("_43IE39H1L4INB26CAF base 24", Some("ffffffffffffffffffff"), || ubig!(_43IE39H1L4INB26CAF base 24), None),
    ("_jh0310gn3eh1lbfinlf2g base 24", Some("1000000000000000000000000"), || ubig!(_jh0310gn3eh1lbfinlf2g base 24), None),
    ("_JH0310GN3EH1LBFINLF2G base 24", Some("1000000000000000000000000"), || ubig!(_JH0310GN3EH1LBFINLF2G base 24), Some((|| ibig!(_JH0310GN3EH1LBFINLF2G base 24), || ibig!(-_JH0310GN3EH1LBFINLF2G base 24)))),
    ("JH0310GN3EH1LBFINLF2G base 24", Some("1000000000000000000000000"), || ubig!(JH0310GN3EH1LBFINLF2G base 24), None),
    ("_95b794mjicl2m0cbfjnjnd2hdm59 base 24", Some("80000000000000000000000000000001"), || ubig!(_95b794mjicl2m0cbfjnjnd2hdm59 base 24), None),
    ("_95B794MJICL2M0CBFJNJND2HDM59 base 24", Some("80000000000000000000000000000001"), || ubig!(_95B794MJICL2M0CBFJNJND2HDM59 base 24), Some((|| ibig!(_95B794MJICL2M0CBFJNJND2HDM59 base 24), || ibig!(-_95B794MJICL2M0CBFJNJND2HDM59 base 24)))),
    ("_h6in1fdan5h6bf6db9ge7nl99j906makhif base 24", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_h6in1fdan5h6bf6db9ge7nl99j906makhif base 24), None),
    ("_H6IN1FDAN5H6BF6DB9GE7NL99J906MAKHIF base 24", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_H6IN1FDAN5H6BF6DB9GE7NL99J906MAKHIF base 24), None),
    ("H6IN1FDAN5H6BF6DB9GE7NL99J906MAKHIF base 24", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(H6IN1FDAN5H6BF6DB9GE7NL99J906MAKHIF base 24), Some((|| ibig!(H6IN1FDAN5H6BF6DB9GE7NL99J906MAKHIF base 24), || ibig!(-H6IN1FDAN5H6BF6DB9GE7NL99J906MAKHIF base 24)))),
    ("_727amejiin3hlefi2j96n09k66nea60i5g7082i4g285c5k7i5f8ngl8 base 24", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_727amejiin3hlefi2j96n09k66nea60i5g7082i4g285c5k7i5f8ngl8 base 24), None),
    ("_727AMEJIIN3HLEFI2J96N09K66NEA60I5G7082I4G285C5K7I5F8NGL8 base 24", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_727AMEJIIN3HLEFI2J96N09K66NEA60I5G7082I4G285C5K7I5F8NGL8 base 24), None),
    ("_cagiik9bicg9nile51b9h0fn93lm70j183n54a1g9d0llnknffmgg32g87j7jjmn1eh4ah base 24", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_cagiik9bicg9nile51b9h0fn93lm70j183n54a1g9d0llnknffmgg32g87j7jjmn1eh4ah base 24), Some((|| ibig!(_cagiik9bicg9nile51b9h0fn93lm70j183n54a1g9d0llnknffmgg32g87j7jjmn1eh4ah base 24), || ibig!(-_cagiik9bicg9nile51b9h0fn93lm70j183n54a1g9d0llnknffmgg32g87j7jjmn1eh4ah base 24)))),
    ("_CAGIIK9BICG9NILE51B9H0FN93LM70J183N54A1G9D0LLNKNFFMGG32G87J7JJMN1EH4AH base 24", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_CAGIIK9BICG9NILE51B9H0FN93LM70J183N54A1G9D0LLNKNFFMGG32G87J7JJMN1EH4AH base 24), None),
    ("CAGIIK9BICG9NILE51B9H0FN93LM70J183N54A1G9D0LLNKNFFMGG32G87J7JJMN1EH4AH base 24", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(CAGIIK9BICG9NILE51B9H0FN93LM70J183N54A1G9D0LLNKNFFMGG32G87J7JJMN1EH4AH base 24), None),
    ("_h5kca7gkmdd417ik8n6djk0gih0f579ijg5ag0b0gjk4872g0 base 24", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_h5kca7gkmdd417ik8n6djk0gih0f579ijg5ag0b0gjk4872g0 base 24), Some((|| ibig!(_h5kca7gkmdd417ik8n6djk0gih0f579ijg5ag0b0gjk4872g0 base 24), || ibig!(-_h5kca7gkmdd417ik8n6djk0gih0f579ijg5ag0b0gjk4872g0 base 24)))),
    ("_H5KCA7GKMDD417IK8N6DJK0GIH0F579IJG5AG0B0GJK4872G0 base 24", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_H5KCA7GKMDD417IK8N6DJK0GIH0F579IJG5AG0B0GJK4872G0 base 24), None),
    ("H5KCA7GKMDD417IK8N6DJK0GIH0F579IJG5AG0B0GJK4872G0 base 24", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(H5KCA7GKMDD417IK8N6DJK0GIH0F579IJG5AG0B0GJK4872G0 base 24), None),
    ("_1000000000000 base 24", Some("81bf1000000000"), || ubig!(_1000000000000 base 24), Some((|| ibig!(_1000000000000 base 24), || ibig!(-_1000000000000 base 24)))),
    ("_nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn base 24", Some("a8b8b452291fe820ffffffffffffffffffffffffffffff"), || ubig!(_nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn base 24), None),
    ("_NNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN base 24", Some("a8b8b452291fe820ffffffffffffffffffffffffffffff"), || ubig!(_NNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN base 24), None),
    ("NNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN base 24", Some("a8b8b452291fe820ffffffffffffffffffffffffffffff"), || ubig!(NNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN base 24), Some((|| ibig!(NNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN base 24), || ibig!(-NNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN base 24)))),
    ("_100000000000000000000000000000000000000000 base 24", Some("fd150e7b3dafdc318000000000000000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 24), None),
    ("_1_0 base 24", None, || ubig!(_1_0 base 24), None),
    ("__1 base 24", None, || ubig!(__1 base 24), Some((|| ibig!(__1 base 24), || ibig!(-__1 base 24)))),
    ("1_0 base 24", None, || ubig!(1_0 base 24), None),
    ("_0 base 25", Some("0"), || ubig!(_0 base 25), None),
    ("0 base 25", Some("0"), || ubig!(0 base 25), Some((|| ibig!(0 base 25), || ibig!(-0 base 25)))),
    ("_1 base 25", Some("1"), || ubig!(_1 base 25), None),
    ("1 base 25", Some("1"), || ubig!(1 base 25), None),
    ("_c base 25", Some("c"), || ubig!(_c base 25), Some((|| ibig!(_c base 25), || ibig!(-_c base 25)))),
    ("c base 25", Some("c"), || ubig!(c base 25), None),
    ("_o base 25", Some("18"), || ubig!(_o base 25), None),
    ("o base 25", Some("18"), || ubig!(o base 25), Some((|| ibig!(o base 25), || ibig!(-o base 25)))),
    ("_p base 25", None, || ubig!(_p base 25), None),
    ("p base 25", None, || ubig!(p base 25), None),
    ("_00 base 25", Some("0"), || ubig!(_00 base 25), Some((|| ibig!(_00 base 25), || ibig!(-_00 base 25)))),
    ("00 base 25", Some("0"), || ubig!(00 base 25), None),
    ("_01 base 25", Some("1"), || ubig!(_01 base 25), None),
    ("01 base 25", Some("1"), || ubig!(01 base 25), Some((|| ibig!(01 base 25), || ibig!(-01 base 25)))),
    ("_0c base 25", Some("c"), || ubig!(_0c base 25), None),
    ("_0o base 25", Some("18"), || ubig!(_0o base 25), None),
    ("_0p base 25", None, || ubig!(_0p base 25), Some((|| ibig!(_0p base 25), || ibig!(-_0p base 25)))),
    ("_10 base 25", Some("19"), || ubig!(_10 base 25), None),
    ("10 base 25", Some("19"), || ubig!(10 base 25), None),
    ("_11 base 25", Some("1a"), || ubig!(_11 base 25), Some((|| ibig!(_11 base 25), || ibig!(-_11 base 25)))),
    ("11 base 25", Some("1a"), || ubig!(11 base 25), None),
    ("_1c base 25", Some("25"), || ubig!(_1c base 25), None),
    ("_1o base 25", Some("31"), || ubig!(_1o base 25), Some((|| ibig!(_1o base 25), || ibig!(-_1o base 25)))),
    ("_1p base 25", None, || ubig!(_1p base 25), None),
    ("_c0 base 25", Some("12c"), || ubig!(_c0 base 25), None),
    ("c0 base 25", Some("12c"), || ubig!(c0 base 25), Some((|| ibig!(c0 base 25), || ibig!(-c0 base 25)))),
    ("_c1 base 25", Some("12d"), || ubig!(_c1 base 25), None),
    ("c1 base 25", Some("12d"), || ubig!(c1 base 25), None),
    ("_cc base 25", Some("138"), || ubig!(_cc base 25), Some((|| ibig!(_cc base 25), || ibig!(-_cc base 25)))),
    ("cc base 25", Some("138"), || ubig!(cc base 25), None),
    ("_co base 25", Some("144"), || ubig!(_co base 25), None),
    ("co base 25", Some("144"), || ubig!(co base 25), Some((|| ibig!(co base 25), || ibig!(-co base 25)))),
    ("_cp base 25", None, || ubig!(_cp base 25), None),
    ("cp base 25", None, || ubig!(cp base 25), None),
    ("_o0 base 25", Some("258"), || ubig!(_o0 base 25), Some((|| ibig!(_o0 base 25), || ibig!(-_o0 base 25)))),
    ("o0 base 25", Some("258"), || ubig!(o0 base 25), None),
    ("_o1 base 25", Some("259"), || ubig!(_o1 base 25), None),
    ("o1 base 25", Some("259"), || ubig!(o1 base 25), Some((|| ibig!(o1 base 25), || ibig!(-o1 base 25)))),
    ("_oc base 25", Some("264"), || ubig!(_oc base 25), None),
    ("oc base 25", Some("264"), || ubig!(oc base 25), None),
    ("_oo base 25", Some("270"), || ubig!(_oo base 25), Some((|| ibig!(_oo base 25), || ibig!(-_oo base 25)))),
    ("oo base 25", Some("270"), || ubig!(oo base 25), None),
    ("_op base 25", None, || ubig!(_op base 25), None),
    ("op base 25", None, || ubig!(op base 25), Some((|| ibig!(op base 25), || ibig!(-op base 25)))),
    ("_p0 base 25", None, || ubig!(_p0 base 25), None),
    ("p0 base 25", None, || ubig!(p0 base 25), None),
    ("_p1 base 25", None, || ubig!(_p1 base 25), Some((|| ibig!(_p1 base 25), || ibig!(-_p1 base 25)))),
    ("p1 base 25", None, || ubig!(p1 base 25), None),
    ("_pc base 25", None, || ubig!(_pc base 25), None),
    ("pc base 25", None, || ubig!(pc base 25), Some((|| ibig!(pc base 25), || ibig!(-pc base 25)))),
    ("_po base 25", None, || ubig!(_po base 25), None),
    ("po base 25", None, || ubig!(po base 25), None),
    ("_pp base 25", None, || ubig!(_pp base 25), Some((|| ibig!(_pp base 25), || ibig!(-_pp base 25)))),
    ("pp base 25", None, || ubig!(pp base 25), None),
    ("_52 base 25", Some("7f"), || ubig!(_52 base 25), None),
    ("_22ai base 25", Some("8000"), || ubig!(_22ai base 25), Some((|| ibig!(_22ai base 25), || ibig!(-_22ai base 25)))),
    ("_22AI base 25", Some("8000"), || ubig!(_22AI base 25), None),
    ("_89hn base 25", Some("20001"), || ubig!(_89hn base 25), None),
    ("_89HN base 25", Some("20001"), || ubig!(_89HN base 25), Some((|| ibig!(_89HN base 25), || ibig!(-_89HN base 25)))),
    ("_1a4f5k8g base 25", Some("1ffffffff"), || ubig!(_1a4f5k8g base 25), None),
    ("_1A4F5K8G base 25", Some("1ffffffff"), || ubig!(_1A4F5K8G base 25), None),
    ("_2njglcf9c16 base 25", Some("1000000000000"), || ubig!(_2njglcf9c16 base 25), Some((|| ibig!(_2njglcf9c16 base 25), || ibig!(-_2njglcf9c16 base 25)))),
    ("_2NJGLCF9C16 base 25", Some("1000000000000"), || ubig!(_2NJGLCF9C16 base 25), None),
    ("_c9c336o0mlb7eh base 25", Some("10000000000000001"), || ubig!(_c9c336o0mlb7eh base 25), None),
    ("_C9C336O0MLB7EH base 25", Some("10000000000000001"), || ubig!(_C9C336O0MLB7EH base 25), Some((|| ibig!(_C9C336O0MLB7EH base 25), || ibig!(-_C9C336O0MLB7EH base 25)))),
    ("C9C336O0MLB7EH base 25", Some("10000000000000001"), || ubig!(C9C336O0MLB7EH base 25), None),
    ("_21n1l9f271al2c64m0 base 25", Some("ffffffffffffffffffff"), || ubig!(_21n1l9f271al2c64m0 base 25), None),
    ("_21N1L9F271AL2C64M0 base 25", Some("ffffffffffffffffffff"), || ubig!(_21N1L9F271AL2C64M0 base 25), Some((|| ibig!(_21N1L9F271AL2C64M0 base 25), || ibig!(-_21N1L9F271AL2C64M0 base 25)))),
    ("_8hjcngi69mmacl83mckdb base 25", Some("1000000000000000000000000"), || ubig!(_8hjcngi69mmacl83mckdb base 25), None),
    ("_8HJCNGI69MMACL83MCKDB base 25", Some("1000000000000000000000000"), || ubig!(_8HJCNGI69MMACL83MCKDB base 25), None),
    ("_31ffc3d7km5eej9ge7bdfk6d7j44 base 25", Some("80000000000000000000000000000001"), || ubig!(_31ffc3d7km5eej9ge7bdfk6d7j44 base 25), Some((|| ibig!(_31ffc3d7km5eej9ge7bdfk6d7j44 base 25), || ibig!(-_31ffc3d7km5eej9ge7bdfk6d7j44 base 25)))),
    ("_31FFC3D7KM5EEJ9GE7BDFK6D7J44 base 25", Some("80000000000000000000000000000001"), || ubig!(_31FFC3D7KM5EEJ9GE7BDFK6D7J44 base 25), None),
    ("_47kolggh3c1cj244mfj5k14ngkmfahc7ij0 base 25", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_47kolggh3c1cj244mfj5k14ngkmfahc7ij0 base 25), None),
    ("_47KOLGGH3C1CJ244MFJ5K14NGKMFAHC7IJ0 base 25", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_47KOLGGH3C1CJ244MFJ5K14NGKMFAHC7IJ0 base 25), Some((|| ibig!(_47KOLGGH3C1CJ244MFJ5K14NGKMFAHC7IJ0 base 25), || ibig!(-_47KOLGGH3C1CJ244MFJ5K14NGKMFAHC7IJ0 base 25)))),
    ("_ijhhke6ocei956o50b39ie2f3ed88jm3i8616ic51b653123625nbni base 25", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_ijhhke6ocei956o50b39ie2f3ed88jm3i8616ic51b653123625nbni base 25), None),
    ("_IJHHKE6OCEI956O50B39IE2F3ED88JM3I8616IC51B653123625NBNI base 25", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_IJHHKE6OCEI956O50B39IE2F3ED88JM3I8616IC51B653123625NBNI base 25), None),
    ("IJHHKE6OCEI956O50B39IE2F3ED88JM3I8616IC51B653123625NBNI base 25", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(IJHHKE6OCEI956O50B39IE2F3ED88JM3I8616IC51B653123625NBNI base 25), Some((|| ibig!(IJHHKE6OCEI956O50B39IE2F3ED88JM3I8616IC51B653123625NBNI base 25), || ibig!(-IJHHKE6OCEI956O50B39IE2F3ED88JM3I8616IC51B653123625NBNI base 25)))),
    ("_if4ac61l4hlcikjf25a469i93oe6m1b535objggigi69dhk3kme1idc3033k5c2hhdnd2 base 25", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_if4ac61l4hlcikjf25a469i93oe6m1b535objggigi69dhk3kme1idc3033k5c2hhdnd2 base 25), None),
    ("_IF4AC61L4HLCIKJF25A469I93OE6M1B535OBJGGIGI69DHK3KME1IDC3033K5C2HHDND2 base 25", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_IF4AC61L4HLCIKJF25A469I93OE6M1B535OBJGGIGI69DHK3KME1IDC3033K5C2HHDND2 base 25), None),
    ("IF4AC61L4HLCIKJF25A469I93OE6M1B535OBJGGIGI69DHK3KME1IDC3033K5C2HHDND2 base 25", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(IF4AC61L4HLCIKJF25A469I93OE6M1B535OBJGGIGI69DHK3KME1IDC3033K5C2HHDND2 base 25), Some((|| ibig!(IF4AC61L4HLCIKJF25A469I93OE6M1B535OBJGGIGI69DHK3KME1IDC3033K5C2HHDND2 base 25), || ibig!(-IF4AC61L4HLCIKJF25A469I93OE6M1B535OBJGGIGI69DHK3KME1IDC3033K5C2HHDND2 base 25)))),
    ("_2ain2e7503nih3645fndmnbke039j7jkc482ge037jhmna3nf base 25", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_2ain2e7503nih3645fndmnbke039j7jkc482ge037jhmna3nf base 25), None),
    ("_2AIN2E7503NIH3645FNDMNBKE039J7JKC482GE037JHMNA3NF base 25", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_2AIN2E7503NIH3645FNDMNBKE039J7JKC482GE037JHMNA3NF base 25), None),
    ("_1000000000000 base 25", Some("d3c21bcecceda1"), || ubig!(_1000000000000 base 25), Some((|| ibig!(_1000000000000 base 25), || ibig!(-_1000000000000 base 25)))),
    ("_oooooooooooooooooooooooooooooooooooooooo base 25", Some("35f9dea3e1f6bdfef70cdd17b25efa418ca63a22764cec0"), || ubig!(_oooooooooooooooooooooooooooooooooooooooo base 25), None),
    ("_OOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOO base 25", Some("35f9dea3e1f6bdfef70cdd17b25efa418ca63a22764cec0"), || ubig!(_OOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOO base 25), None),
    ("OOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOO base 25", Some("35f9dea3e1f6bdfef70cdd17b25efa418ca63a22764cec0"), || ubig!(OOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOO base 25), Some((|| ibig!(OOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOO base 25), || ibig!(-OOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOO base 25)))),
    ("_100000000000000000000000000000000000000000 base 25", Some("54566be0111188de6204197506b467066bc3bad5d8d830d9"), || ubig!(_100000000000000000000000000000000000000000 base 25), None),
    ("_1_0 base 25", None, || ubig!(_1_0 base 25), None),
    ("__1 base 25", None, || ubig!(__1 base 25), Some((|| ibig!(__1 base 25), || ibig!(-__1 base 25)))),
    ("1_0 base 25", None, || ubig!(1_0 base 25), None),
    ("_0 base 26", Some("0"), || ubig!(_0 base 26), None),
    ("0 base 26", Some("0"), || ubig!(0 base 26), Some((|| ibig!(0 base 26), || ibig!(-0 base 26)))),
    ("_1 base 26", Some("1"), || ubig!(_1 base 26), None),
    ("1 base 26", Some("1"), || ubig!(1 base 26), None),
    ("_d base 26", Some("d"), || ubig!(_d base 26), Some((|| ibig!(_d base 26), || ibig!(-_d base 26)))),
    ("d base 26", Some("d"), || ubig!(d base 26), None),
    ("_p base 26", Some("19"), || ubig!(_p base 26), None),
    ("p base 26", Some("19"), || ubig!(p base 26), Some((|| ibig!(p base 26), || ibig!(-p base 26)))),
    ("_q base 26", None, || ubig!(_q base 26), None),
    ("q base 26", None, || ubig!(q base 26), None),
    ("_00 base 26", Some("0"), || ubig!(_00 base 26), Some((|| ibig!(_00 base 26), || ibig!(-_00 base 26)))),
    ("00 base 26", Some("0"), || ubig!(00 base 26), None),
    ("_01 base 26", Some("1"), || ubig!(_01 base 26), None),
    ("01 base 26", Some("1"), || ubig!(01 base 26), Some((|| ibig!(01 base 26), || ibig!(-01 base 26)))),
    ("_0d base 26", Some("d"), || ubig!(_0d base 26), None),
    ("_0p base 26", Some("19"), || ubig!(_0p base 26), None),
    ("_0q base 26", None, || ubig!(_0q base 26), Some((|| ibig!(_0q base 26), || ibig!(-_0q base 26)))),
    ("_10 base 26", Some("1a"), || ubig!(_10 base 26), None),
    ("10 base 26", Some("1a"), || ubig!(10 base 26), None),
    ("_11 base 26", Some("1b"), || ubig!(_11 base 26), Some((|| ibig!(_11 base 26), || ibig!(-_11 base 26)))),
    ("11 base 26", Some("1b"), || ubig!(11 base 26), None),
    ("_1d base 26", Some("27"), || ubig!(_1d base 26), None),
    ("_1p base 26", Some("33"), || ubig!(_1p base 26), Some((|| ibig!(_1p base 26), || ibig!(-_1p base 26)))),
    ("_1q base 26", None, || ubig!(_1q base 26), None),
    ("_d0 base 26", Some("152"), || ubig!(_d0 base 26), None),
    ("d0 base 26", Some("152"), || ubig!(d0 base 26), Some((|| ibig!(d0 base 26), || ibig!(-d0 base 26)))),
    ("_d1 base 26", Some("153"), || ubig!(_d1 base 26), None),
    ("d1 base 26", Some("153"), || ubig!(d1 base 26), None),
    ("_dd base 26", Some("15f"), || ubig!(_dd base 26), Some((|| ibig!(_dd base 26), || ibig!(-_dd base 26)))),
    ("dd base 26", Some("15f"), || ubig!(dd base 26), None),
    ("_dp base 26", Some("16b"), || ubig!(_dp base 26), None),
];
pub static PART27: &[Row] = &[
    ("dp base 26", Some("16b"), || ubig!(dp base 26), Some((|| ibig!(dp base 26), || ibig!(-dp base 26)))),
    ("_dq base 26", None, || ubig!(_dq base 26), None),
    ("dq base 26", None, || ubig!(dq base 26), None),
    ("_p0 base 26", Some("28a"), || ubig!(_p0 base 26), Some((|| ibig!(_p0 base 26), || ibig!(-_p0 base 26)))),
    ("p0 base 26", Some("28a"), || ubig!(p0 base 26), None),
    ("_p1 base 26", Some("28b"), || ubig!(_p1 base 26), None),
    ("p1 base 26", Some("28b"), || ubig!(p1 base 26), Some((|| ibig!(p1 base 26), || ibig!(-p1 base 26)))),
    ("_pd base 26", Some("297"), || ubig!(_pd base 26), None),
    ("pd base 26", Some("297"), || ubig!(pd base 26), None),
    ("_pp base 26", Some("2a3"), || ubig!(_pp base 26), Some((|| ibig!(_pp base 26), || ibig!(-_pp base 26)))),
    ("pp base 26", Some("2a3"), || ubig!(pp base 26), None),
    ("_pq base 26", None, || ubig!(_pq base 26), None),
    ("pq base 26", None, || ubig!(pq base 26), Some((|| ibig!(pq base 26), || ibig!(-pq base 26)))),
    ("_q0 base 26", None, || ubig!(_q0 base 26), None),
    ("q0 base 26", None, || ubig!(q0 base 26), None),
    ("_q1 base 26", None, || ubig!(_q1 base 26), Some((|| ibig!(_q1 base 26), || ibig!(-_q1 base 26)))),
    ("q1 base 26", None, || ubig!(q1 base 26), None),
    ("_qd base 26", None, || ubig!(_qd base 26), None),
    ("qd base 26", None, || ubig!(qd base 26), Some((|| ibig!(qd base 26), || ibig!(-qd base 26)))),
    ("_qp base 26", None, || ubig!(_qp base 26), None),
    ("qp base 26", None, || ubig!(qp base 26), None),
    ("_qq base 26", None, || ubig!(_qq base 26), Some((|| ibig!(_qq base 26), || ibig!(-_qq base 26)))),
    ("qq base 26", None, || ubig!(qq base 26), None),
    ("_4n base 26", Some("7f"), || ubig!(_4n base 26), None),
    ("_4N base 26", Some("7f"), || ubig!(_4N base 26), Some((|| ibig!(_4N base 26), || ibig!(-_4N base 26)))),
    ("_1mc8 base 26", Some("8000"), || ubig!(_1mc8 base 26), None),
    ("_1MC8 base 26", Some("8000"), || ubig!(_1MC8 base 26), None),
    ("_7bn7 base 26", Some("20001"), || ubig!(_7bn7 base 26), Some((|| ibig!(_7bn7 base 26), || ibig!(-_7bn7 base 26)))),
    ("_7BN7 base 26", Some("20001"), || ubig!(_7BN7 base 26), None),
    ("_11kp8nlh base 26", Some("1ffffffff"), || ubig!(_11kp8nlh base 26), None),
    ("_11KP8NLH base 26", Some("1ffffffff"), || ubig!(_11KP8NLH base 26), Some((|| ibig!(_11KP8NLH base 26), || ibig!(-_11KP8NLH base 26)))),
    ("_1pln0fnkepe base 26", Some("1000000000000"), || ubig!(_1pln0fnkepe base 26), None),
    ("_1PLN0FNKEPE base 26", Some("1000000000000"), || ubig!(_1PLN0FNKEPE base 26), None),
    ("_7b7n2pcniokcgh base 26", Some("10000000000000001"), || ubig!(_7b7n2pcniokcgh base 26), Some((|| ibig!(_7b7n2pcniokcgh base 26), || ibig!(-_7b7n2pcniokcgh base 26)))),
    ("_7B7N2PCNIOKCGH base 26", Some("10000000000000001"), || ubig!(_7B7N2PCNIOKCGH base 26), None),
    ("_11ik3f5315lg4lg4pl base 26", Some("ffffffffffffffffffff"), || ubig!(_11ik3f5315lg4lg4pl base 26), None),
    ("_11IK3F5315LG4LG4PL base 26", Some("ffffffffffffffffffff"), || ubig!(_11IK3F5315LG4LG4PL base 26), Some((|| ibig!(_11IK3F5315LG4LG4PL base 26), || ibig!(-_11IK3F5315LG4LG4PL base 26)))),
    ("_3p9ej9l38cdp826ii045e base 26", Some("1000000000000000000000000"), || ubig!(_3p9ej9l38cdp826ii045e base 26), None),
    ("_3P9EJ9L38CDP826II045E base 26", Some("1000000000000000000000000"), || ubig!(_3P9EJ9L38CDP826II045E base 26), None),
    ("_11gf2k68m8of9j9agmk61a6g4i0p base 26", Some("80000000000000000000000000000001"), || ubig!(_11gf2k68m8of9j9agmk61a6g4i0p base 26), Some((|| ibig!(_11gf2k68m8of9j9agmk61a6g4i0p base 26), || ibig!(-_11gf2k68m8of9j9agmk61a6g4i0p base 26)))),
    ("_11GF2K68M8OF9J9AGMK61A6G4I0P base 26", Some("80000000000000000000000000000001"), || ubig!(_11GF2K68M8OF9J9AGMK61A6G4I0P base 26), None),
    ("_13ed9o357ced8h15ekaj9fnogp8b4i80c0f base 26", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_13ed9o357ced8h15ekaj9fnogp8b4i80c0f base 26), None),
    ("_13ED9O357CED8H15EKAJ9FNOGP8B4I80C0F base 26", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_13ED9O357CED8H15EKAJ9FNOGP8B4I80C0F base 26), Some((|| ibig!(_13ED9O357CED8H15EKAJ9FNOGP8B4I80C0F base 26), || ibig!(-_13ED9O357CED8H15EKAJ9FNOGP8B4I80C0F base 26)))),
    ("_26jhnacfii226pgmcod6ailjn9ae7i6dadgciin5ciiliad9mch8di8 base 26", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_26jhnacfii226pgmcod6ailjn9ae7i6dadgciin5ciiliad9mch8di8 base 26), None),
    ("_26JHNACFII226PGMCOD6AILJN9AE7I6DADGCIIN5CIILIAD9MCH8DI8 base 26", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_26JHNACFII226PGMCOD6AILJN9AE7I6DADGCIIN5CIILIAD9MCH8DI8 base 26), None),
    ("_17fhola543op6oifig8pg0c1kd2lj40hcnieajlf39f7dipaooka1oi0ag0h4h4jaek9n base 26", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_17fhola543op6oifig8pg0c1kd2lj40hcnieajlf39f7dipaooka1oi0ag0h4h4jaek9n base 26), Some((|| ibig!(_17fhola543op6oifig8pg0c1kd2lj40hcnieajlf39f7dipaooka1oi0ag0h4h4jaek9n base 26), || ibig!(-_17fhola543op6oifig8pg0c1kd2lj40hcnieajlf39f7dipaooka1oi0ag0h4h4jaek9n base 26)))),
    ("_17FHOLA543OP6OIFIG8PG0C1KD2LJ40HCNIEAJLF39F7DIPAOOKA1OI0AG0H4H4JAEK9N base 26", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_17FHOLA543OP6OIFIG8PG0C1KD2LJ40HCNIEAJLF39F7DIPAOOKA1OI0AG0H4H4JAEK9N base 26), None),
    ("_9g0o7pm387739f8emdgc7dppfj43cdoboa6bp9hhf5fgce08 base 26", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_9g0o7pm387739f8emdgc7dppfj43cdoboa6bp9hhf5fgce08 base 26), None),
    ("_9G0O7PM387739F8EMDGC7DPPFJ43CDOBOA6BP9HHF5FGCE08 base 26", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_9G0O7PM387739F8EMDGC7DPPFJ43CDOBOA6BP9HHF5FGCE08 base 26), Some((|| ibig!(_9G0O7PM387739F8EMDGC7DPPFJ43CDOBOA6BP9HHF5FGCE08 base 26), || ibig!(-_9G0O7PM387739F8EMDGC7DPPFJ43CDOBOA6BP9HHF5FGCE08 base 26)))),
    ("_1000000000000 base 26", Some("1530821671b1000"), || ubig!(_1000000000000 base 26), None),
    ("_pppppppppppppppppppppppppppppppppppppppp base 26", Some("10323e09dbdfcf2b99b1594f797ee53c9878a0ffffffffff"), || ubig!(_pppppppppppppppppppppppppppppppppppppppp base 26), None),
    ("_PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP base 26", Some("10323e09dbdfcf2b99b1594f797ee53c9878a0ffffffffff"), || ubig!(_PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP base 26), Some((|| ibig!(_PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP base 26), || ibig!(-_PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP base 26)))),
    ("PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP base 26", Some("10323e09dbdfcf2b99b1594f797ee53c9878a0ffffffffff"), || ubig!(PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP base 26), None),
    ("_100000000000000000000000000000000000000000 base 26", Some("1a51a4d0054bb0a6d9c03121256e348277c405a0000000000"), || ubig!(_100000000000000000000000000000000000000000 base 26), None),
    ("_1_0 base 26", None, || ubig!(_1_0 base 26), Some((|| ibig!(_1_0 base 26), || ibig!(-_1_0 base 26)))),
    ("__1 base 26", None, || ubig!(__1 base 26), None),
    ("1_0 base 26", None, || ubig!(1_0 base 26), None),
    ("_0 base 27", Some("0"), || ubig!(_0 base 27), Some((|| ibig!(_0 base 27), || ibig!(-_0 base 27)))),
    ("0 base 27", Some("0"), || ubig!(0 base 27), None),
    ("_1 base 27", Some("1"), || ubig!(_1 base 27), None),
    ("1 base 27", Some("1"), || ubig!(1 base 27), Some((|| ibig!(1 base 27), || ibig!(-1 base 27)))),
    ("_d base 27", Some("d"), || ubig!(_d base 27), None),
    ("d base 27", Some("d"), || ubig!(d base 27), None),
    ("_q base 27", Some("1a"), || ubig!(_q base 27), Some((|| ibig!(_q base 27), || ibig!(-_q base 27)))),
    ("q base 27", Some("1a"), || ubig!(q base 27), None),
    ("_r base 27", None, || ubig!(_r base 27), None),
    ("r base 27", None, || ubig!(r base 27), Some((|| ibig!(r base 27), || ibig!(-r base 27)))),
    ("_00 base 27", Some("0"), || ubig!(_00 base 27), None),
    ("00 base 27", Some("0"), || ubig!(00 base 27), None),
    ("_01 base 27", Some("1"), || ubig!(_01 base 27), Some((|| ibig!(_01 base 27), || ibig!(-_01 base 27)))),
    ("01 base 27", Some("1"), || ubig!(01 base 27), None),
    ("_0d base 27", Some("d"), || ubig!(_0d base 27), None),
    ("_0q base 27", Some("1a"), || ubig!(_0q base 27), Some((|| ibig!(_0q base 27), || ibig!(-_0q base 27)))),
    ("_0r base 27", None, || ubig!(_0r base 27), None),
    ("_10 base 27", Some("1b"), || ubig!(_10 base 27), None),
    ("10 base 27", Some("1b"), || ubig!(10 base 27), Some((|| ibig!(10 base 27), || ibig!(-10 base 27)))),
    ("_11 base 27", Some("1c"), || ubig!(_11 base 27), None),
    ("11 base 27", Some("1c"), || ubig!(11 base 27), None),
    ("_1d base 27", Some("28"), || ubig!(_1d base 27), Some((|| ibig!(_1d base 27), || ibig!(-_1d base 27)))),
    ("_1q base 27", Some("35"), || ubig!(_1q base 27), None),
    ("_1r base 27", None, || ubig!(_1r base 27), None),
    ("_d0 base 27", Some("15f"), || ubig!(_d0 base 27), Some((|| ibig!(_d0 base 27), || ibig!(-_d0 base 27)))),
    ("d0 base 27", Some("15f"), || ubig!(d0 base 27), None),
    ("_d1 base 27", Some("160"), || ubig!(_d1 base 27), None),
    ("d1 base 27", Some("160"), || ubig!(d1 base 27), Some((|| ibig!(d1 base 27), || ibig!(-d1 base 27)))),
    ("_dd base 27", Some("16c"), || ubig!(_dd base 27), None),
    ("dd base 27", Some("16c"), || ubig!(dd base 27), None),
    ("_dq base 27", Some("179"), || ubig!(_dq base 27), Some((|| ibig!(_dq base 27), || ibig!(-_dq base 27)))),
    ("dq base 27", Some("179"), || ubig!(dq base 27), None),
    ("_dr base 27", None, || ubig!(_dr base 27), None),
    ("dr base 27", None, || ubig!(dr base 27), Some((|| ibig!(dr base 27), || ibig!(-dr base 27)))),
    ("_q0 base 27", Some("2be"), || ubig!(_q0 base 27), None),
    ("q0 base 27", Some("2be"), || ubig!(q0 base 27), None),
    ("_q1 base 27", Some("2bf"), || ubig!(_q1 base 27), Some((|| ibig!(_q1 base 27), || ibig!(-_q1 base 27)))),
    ("q1 base 27", Some("2bf"), || ubig!(q1 base 27), None),
    ("_qd base 27", Some("2cb"), || ubig!(_qd base 27), None),
    ("qd base 27", Some("2cb"), || ubig!(qd base 27), Some((|| ibig!(qd base 27), || ibig!(-qd base 27)))),
    ("_qq base 27", Some("2d8"), || ubig!(_qq base 27), None),
    ("qq base 27", Some("2d8"), || ubig!(qq base 27), None),
    ("_qr base 27", None, || ubig!(_qr base 27), Some((|| ibig!(_qr base 27), || ibig!(-_qr base 27)))),
    ("qr base 27", None, || ubig!(qr base 27), None),
    ("_r0 base 27", None, || ubig!(_r0 base 27), None),
    ("r0 base 27", None, || ubig!(r0 base 27), Some((|| ibig!(r0 base 27), || ibig!(-r0 base 27)))),
    ("_r1 base 27", None, || ubig!(_r1 base 27), None),
    ("r1 base 27", None, || ubig!(r1 base 27), None),
    ("_rd base 27", None, || ubig!(_rd base 27), Some((|| ibig!(_rd base 27), || ibig!(-_rd base 27)))),
    ("rd base 27", None, || ubig!(rd base 27), None),
    ("_rq base 27", None, || ubig!(_rq base 27), None),
    ("rq base 27", None, || ubig!(rq base 27), Some((|| ibig!(rq base 27), || ibig!(-rq base 27)))),
    ("_rr base 27", None, || ubig!(_rr base 27), None),
    ("rr base 27", None, || ubig!(rr base 27), None),
    ("_4j base 27", Some("7f"), || ubig!(_4j base 27), Some((|| ibig!(_4j base 27), || ibig!(-_4j base 27)))),
    ("_4J base 27", Some("7f"), || ubig!(_4J base 27), None),
    ("_1hph base 27", Some("8000"), || ubig!(_1hph base 27), None),
    ("_1HPH base 27", Some("8000"), || ubig!(_1HPH base 27), Some((|| ibig!(_1HPH base 27), || ibig!(-_1HPH base 27)))),
    ("_6hlf base 27", Some("20001"), || ubig!(_6hlf base 27), None),
    ("_6HLF base 27", Some("20001"), || ubig!(_6HLF base 27), None),
    ("_m4hco0g base 27", Some("1ffffffff"), || ubig!(_m4hco0g base 27), Some((|| ibig!(_m4hco0g base 27), || ibig!(-_m4hco0g base 27)))),
    ("_M4HCO0G base 27", Some("1ffffffff"), || ubig!(_M4HCO0G base 27), None),
    ("M4HCO0G base 27", Some("1ffffffff"), || ubig!(M4HCO0G base 27), None),
    ("_19ogk32ab3j base 27", Some("1000000000000"), || ubig!(_19ogk32ab3j base 27), Some((|| ibig!(_19ogk32ab3j base 27), || ibig!(-_19ogk32ab3j base 27)))),
    ("_19OGK32AB3J base 27", Some("1000000000000"), || ubig!(_19OGK32AB3J base 27), None),
    ("_4eo8hfam6fllmq base 27", Some("10000000000000001"), || ubig!(_4eo8hfam6fllmq base 27), None),
    ("_4EO8HFAM6FLLMQ base 27", Some("10000000000000001"), || ubig!(_4EO8HFAM6FLLMQ base 27), Some((|| ibig!(_4EO8HFAM6FLLMQ base 27), || ibig!(-_4EO8HFAM6FLLMQ base 27)))),
    ("_f45fqogop7jhdhc4c base 27", Some("ffffffffffffffffffff"), || ubig!(_f45fqogop7jhdhc4c base 27), None),
    ("_F45FQOGOP7JHDHC4C base 27", Some("ffffffffffffffffffff"), || ubig!(_F45FQOGOP7JHDHC4C base 27), None),
    ("F45FQOGOP7JHDHC4C base 27", Some("ffffffffffffffffffff"), || ubig!(F45FQOGOP7JHDHC4C base 27), Some((|| ibig!(F45FQOGOP7JHDHC4C base 27), || ibig!(-F45FQOGOP7JHDHC4C base 27)))),
    ("_1ncd2la6hgob54h542qja base 27", Some("1000000000000000000000000"), || ubig!(_1ncd2la6hgob54h542qja base 27), None),
    ("_1NCD2LA6HGOB54H542QJA base 27", Some("1000000000000000000000000"), || ubig!(_1NCD2LA6HGOB54H542QJA base 27), None),
    ("_a9j813g0b2fhchp3k0hjogf3i83 base 27", Some("80000000000000000000000000000001"), || ubig!(_a9j813g0b2fhchp3k0hjogf3i83 base 27), Some((|| ibig!(_a9j813g0b2fhchp3k0hjogf3i83 base 27), || ibig!(-_a9j813g0b2fhchp3k0hjogf3i83 base 27)))),
    ("_A9J813G0B2FHCHP3K0HJOGF3I83 base 27", Some("80000000000000000000000000000001"), || ubig!(_A9J813G0B2FHCHP3K0HJOGF3I83 base 27), None),
    ("A9J813G0B2FHCHP3K0HJOGF3I83 base 27", Some("80000000000000000000000000000001"), || ubig!(A9J813G0B2FHCHP3K0HJOGF3I83 base 27), None),
    ("_8dinclgejpa6jmqkmkq3l2ddjafp5ha826 base 27", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_8dinclgejpa6jmqkmkq3l2ddjafp5ha826 base 27), Some((|| ibig!(_8dinclgejpa6jmqkmkq3l2ddjafp5ha826 base 27), || ibig!(-_8dinclgejpa6jmqkmkq3l2ddjafp5ha826 base 27)))),
    ("_8DINCLGEJPA6JMQKMKQ3L2DDJAFP5HA826 base 27", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_8DINCLGEJPA6JMQKMKQ3L2DDJAFP5HA826 base 27), None),
    ("_7phfhqhdbb8i0qc7edohjnolebh1o931lfnlb63dgm8dbdoojmg4a8 base 27", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_7phfhqhdbb8i0qc7edohjnolebh1o931lfnlb63dgm8dbdoojmg4a8 base 27), None),
    ("_7PHFHQHDBB8I0QC7EDOHJNOLEBH1O931LFNLB63DGM8DBDOOJMG4A8 base 27", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_7PHFHQHDBB8I0QC7EDOHJNOLEBH1O931LFNLB63DGM8DBDOOJMG4A8 base 27), Some((|| ibig!(_7PHFHQHDBB8I0QC7EDOHJNOLEBH1O931LFNLB63DGM8DBDOOJMG4A8 base 27), || ibig!(-_7PHFHQHDBB8I0QC7EDOHJNOLEBH1O931LFNLB63DGM8DBDOOJMG4A8 base 27)))),
    ("_2ia3fa52dpp5npe5mk7ol7225gqim0j0hmp6de66e3jf4fpjpj4anpc4jjbi1odoe92n base 27", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_2ia3fa52dpp5npe5mk7ol7225gqim0j0hmp6de66e3jf4fpjpj4anpc4jjbi1odoe92n base 27), None),
    ("_2IA3FA52DPP5NPE5MK7OL7225GQIM0J0HMP6DE66E3JF4FPJPJ4ANPC4JJBI1ODOE92N base 27", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_2IA3FA52DPP5NPE5MK7OL7225GQIM0J0HMP6DE66E3JF4FPJPJ4ANPC4JJBI1ODOE92N base 27), None),
    ("_1h1ghhcmqn01i90b4354anej4epha1n5l7fi1e1bdgjc0qao base 27", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_1h1ghhcmqn01i90b4354anej4epha1n5l7fi1e1bdgjc0qao base 27), Some((|| ibig!(_1h1ghhcmqn01i90b4354anej4epha1n5l7fi1e1bdgjc0qao base 27), || ibig!(-_1h1ghhcmqn01i90b4354anej4epha1n5l7fi1e1bdgjc0qao base 27)))),
    ("_1H1GHHCMQN01I90B4354ANEJ4EPHA1N5L7FI1E1BDGJC0QAO base 27", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_1H1GHHCMQN01I90B4354ANEJ4EPHA1N5L7FI1E1BDGJC0QAO base 27), None),
    ("_1000000000000 base 27", Some("2153e468b91c6d1"), || ubig!(_1000000000000 base 27), None),
    ("_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq base 27", Some("4949a9b699bf15c789b11e42db8e5bb060f0fcebb0ee4460"), || ubig!(_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq base 27), Some((|| ibig!(_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq base 27), || ibig!(-_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq base 27)))),
    ("_QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQ base 27", Some("4949a9b699bf15c789b11e42db8e5bb060f0fcebb0ee4460"), || ubig!(_QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQ base 27), None),
    ("QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQ base 27", Some("4949a9b699bf15c789b11e42db8e5bb060f0fcebb0ee4460"), || ubig!(QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQ base 27), None),
    ("_100000000000000000000000000000000000000000 base 27", Some("7bac4e64237274c0b85ae310d2803ab9a396aacdba921363b"), || ubig!(_100000000000000000000000000000000000000000 base 27), Some((|| ibig!(_100000000000000000000000000000000000000000 base 27), || ibig!(-_100000000000000000000000000000000000000000 base 27)))),
    ("_1_0 base 27", None, || ubig!(_1_0 base 27), None),
    ("__1 base 27", None, || ubig!(__1 base 27), None),
    ("1_0 base 27", None, || ubig!(1_0 base 27), Some((|| ibig!(1_0 base 27), || ibig!(-1_0 base 27)))),
    ("_0 base 28", Some("0"), || ubig!(_0 base 28), None),
    ("0 base 28", Some("0"), || ubig!(0 base 28), None),
];
pub static PART28: &[Row] = &[
    ("_1 base 28", Some("1"), || ubig!(_1 base 28), Some((|| ibig!(_1 base 28), || ibig!(-_1 base 28)))),
    ("1 base 28", Some("1"), || ubig!(1 base 28), None),
    ("_e base 28", Some("e"), || ubig!(_e base 28), None),
    ("e base 28", Some("e"), || ubig!(e base 28), Some((|| ibig!(e base 28), || ibig!(-e base 28)))),
    ("_r base 28", Some("1b"), || ubig!(_r base 28), None),
    ("r base 28", Some("1b"), || ubig!(r base 28), None),
    ("_s base 28", None, || ubig!(_s base 28), Some((|| ibig!(_s base 28), || ibig!(-_s base 28)))),
    ("s base 28", None, || ubig!(s base 28), None),
    ("_00 base 28", Some("0"), || ubig!(_00 base 28), None),
    ("00 base 28", Some("0"), || ubig!(00 base 28), Some((|| ibig!(00 base 28), || ibig!(-00 base 28)))),
    ("_01 base 28", Some("1"), || ubig!(_01 base 28), None),
    ("01 base 28", Some("1"), || ubig!(01 base 28), None),
    ("_0e base 28", Some("e"), || ubig!(_0e base 28), Some((|| ibig!(_0e base 28), || ibig!(-_0e base 28)))),
    ("_0r base 28", Some("1b"), || ubig!(_0r base 28), None),
    ("_0s base 28", None, || ubig!(_0s base 28), None),
    ("_10 base 28", Some("1c"), || ubig!(_10 base 28), Some((|| ibig!(_10 base 28), || ibig!(-_10 base 28)))),
    ("10 base 28", Some("1c"), || ubig!(10 base 28), None),
    ("_11 base 28", Some("1d"), || ubig!(_11 base 28), None),
    ("11 base 28", Some("1d"), || ubig!(11 base 28), Some((|| ibig!(11 base 28), || ibig!(-11 base 28)))),
    ("_1e base 28", Some("2a"), || ubig!(_1e base 28), None),
    ("_1r base 28", Some("37"), || ubig!(_1r base 28), None),
    ("_1s base 28", None, || ubig!(_1s base 28), Some((|| ibig!(_1s base 28), || ibig!(-_1s base 28)))),
    ("_e0 base 28", Some("188"), || ubig!(_e0 base 28), None),
    ("e0 base 28", Some("188"), || ubig!(e0 base 28), None),
    ("_e1 base 28", Some("189"), || ubig!(_e1 base 28), Some((|| ibig!(_e1 base 28), || ibig!(-_e1 base 28)))),
    ("e1 base 28", Some("189"), || ubig!(e1 base 28), None),
    ("_ee base 28", Some("196"), || ubig!(_ee base 28), None),
    ("ee base 28", Some("196"), || ubig!(ee base 28), Some((|| ibig!(ee base 28), || ibig!(-ee base 28)))),
    ("_er base 28", Some("1a3"), || ubig!(_er base 28), None),
    ("er base 28", Some("1a3"), || ubig!(er base 28), None),
    ("_es base 28", None, || ubig!(_es base 28), Some((|| ibig!(_es base 28), || ibig!(-_es base 28)))),
    ("es base 28", None, || ubig!(es base 28), None),
    ("_r0 base 28", Some("2f4"), || ubig!(_r0 base 28), None),
    ("r0 base 28", Some("2f4"), || ubig!(r0 base 28), Some((|| ibig!(r0 base 28), || ibig!(-r0 base 28)))),
    ("_r1 base 28", Some("2f5"), || ubig!(_r1 base 28), None),
    ("r1 base 28", Some("2f5"), || ubig!(r1 base 28), None),
    ("_re base 28", Some("302"), || ubig!(_re base 28), Some((|| ibig!(_re base 28), || ibig!(-_re base 28)))),
    ("re base 28", Some("302"), || ubig!(re base 28), None),
    ("_rr base 28", Some("30f"), || ubig!(_rr base 28), None),
    ("rr base 28", Some("30f"), || ubig!(rr base 28), Some((|| ibig!(rr base 28), || ibig!(-rr base 28)))),
    ("_rs base 28", None, || ubig!(_rs base 28), None),
    ("rs base 28", None, || ubig!(rs base 28), None),
    ("_s0 base 28", None, || ubig!(_s0 base 28), Some((|| ibig!(_s0 base 28), || ibig!(-_s0 base 28)))),
    ("s0 base 28", None, || ubig!(s0 base 28), None),
    ("_s1 base 28", None, || ubig!(_s1 base 28), None),
    ("s1 base 28", None, || ubig!(s1 base 28), Some((|| ibig!(s1 base 28), || ibig!(-s1 base 28)))),
    ("_se base 28", None, || ubig!(_se base 28), None),
    ("se base 28", None, || ubig!(se base 28), None),
    ("_sr base 28", None, || ubig!(_sr base 28), Some((|| ibig!(_sr base 28), || ibig!(-_sr base 28)))),
    ("sr base 28", None, || ubig!(sr base 28), None),
    ("_ss base 28", None, || ubig!(_ss base 28), None),
    ("ss base 28", None, || ubig!(ss base 28), Some((|| ibig!(ss base 28), || ibig!(-ss base 28)))),
    ("_4f base 28", Some("7f"), || ubig!(_4f base 28), None),
    ("_4F base 28", Some("7f"), || ubig!(_4F base 28), None),
    ("_1dm8 base 28", Some("8000"), || ubig!(_1dm8 base 28), Some((|| ibig!(_1dm8 base 28), || ibig!(-_1dm8 base 28)))),
    ("_1DM8 base 28", Some("8000"), || ubig!(_1DM8 base 28), None),
    ("_5r55 base 28", Some("20001"), || ubig!(_5r55 base 28), None),
    ("_5R55 base 28", Some("20001"), || ubig!(_5R55 base 28), Some((|| ibig!(_5R55 base 28), || ibig!(-_5R55 base 28)))),
    ("_hn35967 base 28", Some("1ffffffff"), || ubig!(_hn35967 base 28), None),
    ("_HN35967 base 28", Some("1ffffffff"), || ubig!(_HN35967 base 28), None),
    ("HN35967 base 28", Some("1ffffffff"), || ubig!(HN35967 base 28), Some((|| ibig!(HN35967 base 28), || ibig!(-HN35967 base 28)))),
    ("_qh0ppgr828 base 28", Some("1000000000000"), || ubig!(_qh0ppgr828 base 28), None),
    ("_QH0PPGR828 base 28", Some("1000000000000"), || ubig!(_QH0PPGR828 base 28), None),
    ("QH0PPGR828 base 28", Some("1000000000000"), || ubig!(QH0PPGR828 base 28), Some((|| ibig!(QH0PPGR828 base 28), || ibig!(-QH0PPGR828 base 28)))),
    ("_2nc6j26l66rhoh base 28", Some("10000000000000001"), || ubig!(_2nc6j26l66rhoh base 28), None),
    ("_2NC6J26L66RHOH base 28", Some("10000000000000001"), || ubig!(_2NC6J26L66RHOH base 28), None),
    ("_8d485aa61ebdlnj53 base 28", Some("ffffffffffffffffffff"), || ubig!(_8d485aa61ebdlnj53 base 28), Some((|| ibig!(_8d485aa61ebdlnj53 base 28), || ibig!(-_8d485aa61ebdlnj53 base 28)))),
    ("_8D485AA61EBDLNJ53 base 28", Some("ffffffffffffffffffff"), || ubig!(_8D485AA61EBDLNJ53 base 28), None),
    ("_p80271d7jm14i5fokl68 base 28", Some("1000000000000000000000000"), || ubig!(_p80271d7jm14i5fokl68 base 28), None),
    ("_P80271D7JM14I5FOKL68 base 28", Some("1000000000000000000000000"), || ubig!(_P80271D7JM14I5FOKL68 base 28), Some((|| ibig!(_P80271D7JM14I5FOKL68 base 28), || ibig!(-_P80271D7JM14I5FOKL68 base 28)))),
    ("P80271D7JM14I5FOKL68 base 28", Some("1000000000000000000000000"), || ubig!(P80271D7JM14I5FOKL68 base 28), None),
    ("_40j3ek89l5h69q3q6jh2khn6doh base 28", Some("80000000000000000000000000000001"), || ubig!(_40j3ek89l5h69q3q6jh2khn6doh base 28), None),
    ("_40J3EK89L5H69Q3Q6JH2KHN6DOH base 28", Some("80000000000000000000000000000001"), || ubig!(_40J3EK89L5H69Q3Q6JH2KHN6DOH base 28), Some((|| ibig!(_40J3EK89L5H69Q3Q6JH2KHN6DOH base 28), || ibig!(-_40J3EK89L5H69Q3Q6JH2KHN6DOH base 28)))),
    ("_2fkhj99b0a193apo257gl0a1lf2kbggacf base 28", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_2fkhj99b0a193apo257gl0a1lf2kbggacf base 28), None),
    ("_2FKHJ99B0A193APO257GL0A1LF2KBGGACF base 28", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_2FKHJ99B0A193APO257GL0A1LF2KBGGACF base 28), None),
    ("_14aqqf5heqpje2lcql364hbg29c133g53pq1c1oobg91bnprraone8 base 28", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_14aqqf5heqpje2lcql364hbg29c133g53pq1c1oobg91bnprraone8 base 28), Some((|| ibig!(_14aqqf5heqpje2lcql364hbg29c133g53pq1c1oobg91bnprraone8 base 28), || ibig!(-_14aqqf5heqpje2lcql364hbg29c133g53pq1c1oobg91bnprraone8 base 28)))),
    ("_14AQQF5HEQPJE2LCQL364HBG29C133G53PQ1C1OOBG91BNPRRAONE8 base 28", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_14AQQF5HEQPJE2LCQL364HBG29C133G53PQ1C1OOBG91BNPRRAONE8 base 28), None),
    ("_6fm4pk3pqkjh1q3neq4ic766g36o94hmcg9ol598grldgolf28d7fagi0kfe70fd215 base 28", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_6fm4pk3pqkjh1q3neq4ic766g36o94hmcg9ol598grldgolf28d7fagi0kfe70fd215 base 28), None),
    ("_6FM4PK3PQKJH1Q3NEQ4IC766G36O94HMCG9OL598GRLDGOLF28D7FAGI0KFE70FD215 base 28", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_6FM4PK3PQKJH1Q3NEQ4IC766G36O94HMCG9OL598GRLDGOLF28D7FAGI0KFE70FD215 base 28), Some((|| ibig!(_6FM4PK3PQKJH1Q3NEQ4IC766G36O94HMCG9OL598GRLDGOLF28D7FAGI0KFE70FD215 base 28), || ibig!(-_6FM4PK3PQKJH1Q3NEQ4IC766G36O94HMCG9OL598GRLDGOLF28D7FAGI0KFE70FD215 base 28)))),
    ("_87fjir0jcbeo2d0qcbdkojeeo9ih10bnblricblpk61qlao base 28", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_87fjir0jcbeo2d0qcbdkojeeo9ih10bnblricblpk61qlao base 28), None),
    ("_87FJIR0JCBEO2D0QCBDKOJEEO9IH10BNBLRICBLPK61QLAO base 28", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_87FJIR0JCBEO2D0QCBDKOJEEO9IH10BNBLRICBLPK61QLAO base 28), None),
    ("_1000000000000 base 28", Some("339014821000000"), || ubig!(_1000000000000 base 28), Some((|| ibig!(_1000000000000 base 28), || ibig!(-_1000000000000 base 28)))),
    ("_rrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrr base 28", Some("139e862f1509ba9c74345f78771c0ffffffffffffffffffff"), || ubig!(_rrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrr base 28), None),
    ("_RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR base 28", Some("139e862f1509ba9c74345f78771c0ffffffffffffffffffff"), || ubig!(_RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR base 28), None),
    ("RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR base 28", Some("139e862f1509ba9c74345f78771c0ffffffffffffffffffff"), || ubig!(RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR base 28), Some((|| ibig!(RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR base 28), || ibig!(-RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR base 28)))),
    ("_100000000000000000000000000000000000000000 base 28", Some("22556ad264d10691cb5ba712d0711c00000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 28), None),
    ("_1_0 base 28", None, || ubig!(_1_0 base 28), None),
    ("__1 base 28", None, || ubig!(__1 base 28), Some((|| ibig!(__1 base 28), || ibig!(-__1 base 28)))),
    ("1_0 base 28", None, || ubig!(1_0 base 28), None),
    ("_0 base 29", Some("0"), || ubig!(_0 base 29), None),
    ("0 base 29", Some("0"), || ubig!(0 base 29), Some((|| ibig!(0 base 29), || ibig!(-0 base 29)))),
    ("_1 base 29", Some("1"), || ubig!(_1 base 29), None),
    ("1 base 29", Some("1"), || ubig!(1 base 29), None),
    ("_e base 29", Some("e"), || ubig!(_e base 29), Some((|| ibig!(_e base 29), || ibig!(-_e base 29)))),
    ("e base 29", Some("e"), || ubig!(e base 29), None),
    ("_s base 29", Some("1c"), || ubig!(_s base 29), None),
    ("s base 29", Some("1c"), || ubig!(s base 29), Some((|| ibig!(s base 29), || ibig!(-s base 29)))),
    ("_t base 29", None, || ubig!(_t base 29), None),
    ("t base 29", None, || ubig!(t base 29), None),
    ("_00 base 29", Some("0"), || ubig!(_00 base 29), Some((|| ibig!(_00 base 29), || ibig!(-_00 base 29)))),
    ("00 base 29", Some("0"), || ubig!(00 base 29), None),
    ("_01 base 29", Some("1"), || ubig!(_01 base 29), None),
    ("01 base 29", Some("1"), || ubig!(01 base 29), Some((|| ibig!(01 base 29), || ibig!(-01 base 29)))),
    ("_0e base 29", Some("e"), || ubig!(_0e base 29), None),
    ("_0s base 29", Some("1c"), || ubig!(_0s base 29), None),
    ("_0t base 29", None, || ubig!(_0t base 29), Some((|| ibig!(_0t base 29), || ibig!(-_0t base 29)))),
    ("_10 base 29", Some("1d"), || ubig!(_10 base 29), None),
    ("10 base 29", Some("1d"), || ubig!(10 base 29), None),
    ("_11 base 29", Some("1e"), || ubig!(_11 base 29), Some((|| ibig!(_11 base 29), || ibig!(-_11 base 29)))),
    ("11 base 29", Some("1e"), || ubig!(11 base 29), None),
    ("_1e base 29", Some("2b"), || ubig!(_1e base 29), None),
    ("_1s base 29", Some("39"), || ubig!(_1s base 29), Some((|| ibig!(_1s base 29), || ibig!(-_1s base 29)))),
    ("_1t base 29", None, || ubig!(_1t base 29), None),
    ("_e0 base 29", Some("196"), || ubig!(_e0 base 29), None),
    ("e0 base 29", Some("196"), || ubig!(e0 base 29), Some((|| ibig!(e0 base 29), || ibig!(-e0 base 29)))),
    ("_e1 base 29", Some("197"), || ubig!(_e1 base 29), None),
    ("e1 base 29", Some("197"), || ubig!(e1 base 29), None),
    ("_ee base 29", Some("1a4"), || ubig!(_ee base 29), Some((|| ibig!(_ee base 29), || ibig!(-_ee base 29)))),
    ("ee base 29", Some("1a4"), || ubig!(ee base 29), None),
    ("_es base 29", Some("1b2"), || ubig!(_es base 29), None),
    ("es base 29", Some("1b2"), || ubig!(es base 29), Some((|| ibig!(es base 29), || ibig!(-es base 29)))),
    ("_et base 29", None, || ubig!(_et base 29), None),
    ("et base 29", None, || ubig!(et base 29), None),
    ("_s0 base 29", Some("32c"), || ubig!(_s0 base 29), Some((|| ibig!(_s0 base 29), || ibig!(-_s0 base 29)))),
    ("s0 base 29", Some("32c"), || ubig!(s0 base 29), None),
    ("_s1 base 29", Some("32d"), || ubig!(_s1 base 29), None),
    ("s1 base 29", Some("32d"), || ubig!(s1 base 29), Some((|| ibig!(s1 base 29), || ibig!(-s1 base 29)))),
    ("_se base 29", Some("33a"), || ubig!(_se base 29), None),
    ("se base 29", Some("33a"), || ubig!(se base 29), None),
    ("_ss base 29", Some("348"), || ubig!(_ss base 29), Some((|| ibig!(_ss base 29), || ibig!(-_ss base 29)))),
    ("ss base 29", Some("348"), || ubig!(ss base 29), None),
    ("_st base 29", None, || ubig!(_st base 29), None),
    ("st base 29", None, || ubig!(st base 29), Some((|| ibig!(st base 29), || ibig!(-st base 29)))),
    ("_t0 base 29", None, || ubig!(_t0 base 29), None),
    ("t0 base 29", None, || ubig!(t0 base 29), None),
    ("_t1 base 29", None, || ubig!(_t1 base 29), Some((|| ibig!(_t1 base 29), || ibig!(-_t1 base 29)))),
    ("t1 base 29", None, || ubig!(t1 base 29), None),
    ("_te base 29", None, || ubig!(_te base 29), None),
    ("te base 29", None, || ubig!(te base 29), Some((|| ibig!(te base 29), || ibig!(-te base 29)))),
    ("_ts base 29", None, || ubig!(_ts base 29), None),
    ("ts base 29", None, || ubig!(ts base 29), None),
    ("_tt base 29", None, || ubig!(_tt base 29), Some((|| ibig!(_tt base 29), || ibig!(-_tt base 29)))),
    ("tt base 29", None, || ubig!(tt base 29), None),
    ("_4b base 29", Some("7f"), || ubig!(_4b base 29), None),
    ("_4B base 29", Some("7f"), || ubig!(_4B base 29), Some((|| ibig!(_4B base 29), || ibig!(-_4B base 29)))),
    ("_19rr base 29", Some("8000"), || ubig!(_19rr base 29), None),
    ("_19RR base 29", Some("8000"), || ubig!(_19RR base 29), None),
    ("_5aom base 29", Some("20001"), || ubig!(_5aom base 29), Some((|| ibig!(_5aom base 29), || ibig!(-_5aom base 29)))),
    ("_5AOM base 29", Some("20001"), || ubig!(_5AOM base 29), None),
    ("_ecn0842 base 29", Some("1ffffffff"), || ubig!(_ecn0842 base 29), None),
];
pub static PART29: &[Row] = &[
    ("_ECN0842 base 29", Some("1ffffffff"), || ubig!(_ECN0842 base 29), Some((|| ibig!(_ECN0842 base 29), || ibig!(-_ECN0842 base 29)))),
    ("ECN0842 base 29", Some("1ffffffff"), || ubig!(ECN0842 base 29), None),
    ("_jbjeka69hn base 29", Some("1000000000000"), || ubig!(_jbjeka69hn base 29), None),
    ("_JBJEKA69HN base 29", Some("1000000000000"), || ubig!(_JBJEKA69HN base 29), Some((|| ibig!(_JBJEKA69HN base 29), || ibig!(-_JBJEKA69HN base 29)))),
    ("JBJEKA69HN base 29", Some("1000000000000"), || ubig!(JBJEKA69HN base 29), None),
    ("_1n3rsh11f098rp base 29", Some("10000000000000001"), || ubig!(_1n3rsh11f098rp base 29), None),
    ("_1N3RSH11F098RP base 29", Some("10000000000000001"), || ubig!(_1N3RSH11F098RP base 29), Some((|| ibig!(_1N3RSH11F098RP base 29), || ibig!(-_1N3RSH11F098RP base 29)))),
    ("_4o2nnbskj3hrbrbej base 29", Some("ffffffffffffffffffff"), || ubig!(_4o2nnbskj3hrbrbej base 29), None),
    ("_4O2NNBSKJ3HRBRBEJ base 29", Some("ffffffffffffffffffff"), || ubig!(_4O2NNBSKJ3HRBRBEJ base 29), None),
    ("_csd7era4r1gasm2br5h7 base 29", Some("1000000000000000000000000"), || ubig!(_csd7era4r1gasm2br5h7 base 29), Some((|| ibig!(_csd7era4r1gasm2br5h7 base 29), || ibig!(-_csd7era4r1gasm2br5h7 base 29)))),
    ("_CSD7ERA4R1GASM2BR5H7 base 29", Some("1000000000000000000000000"), || ubig!(_CSD7ERA4R1GASM2BR5H7 base 29), None),
    ("CSD7ERA4R1GASM2BR5H7 base 29", Some("1000000000000000000000000"), || ubig!(CSD7ERA4R1GASM2BR5H7 base 29), None),
    ("_1hp3d3elmjg86isj584dklf2djs base 29", Some("80000000000000000000000000000001"), || ubig!(_1hp3d3elmjg86isj584dklf2djs base 29), Some((|| ibig!(_1hp3d3elmjg86isj584dklf2djs base 29), || ibig!(-_1hp3d3elmjg86isj584dklf2djs base 29)))),
    ("_1HP3D3ELMJG86ISJ584DKLF2DJS base 29", Some("80000000000000000000000000000001"), || ubig!(_1HP3D3ELMJG86ISJ584DKLF2DJS base 29), None),
    ("_n9n740fja6oi96ekp9r48nfljdbs2ihmm base 29", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_n9n740fja6oi96ekp9r48nfljdbs2ihmm base 29), None),
    ("_N9N740FJA6OI96EKP9R48NFLJDBS2IHMM base 29", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_N9N740FJA6OI96EKP9R48NFLJDBS2IHMM base 29), Some((|| ibig!(_N9N740FJA6OI96EKP9R48NFLJDBS2IHMM base 29), || ibig!(-_N9N740FJA6OI96EKP9R48NFLJDBS2IHMM base 29)))),
    ("N9N740FJA6OI96EKP9R48NFLJDBS2IHMM base 29", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(N9N740FJA6OI96EKP9R48NFLJDBS2IHMM base 29), None),
    ("_56dpc59fbbho3si78ii4hssj89m4ml1gkcl7f2l97e4b74rj83ne8 base 29", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_56dpc59fbbho3si78ii4hssj89m4ml1gkcl7f2l97e4b74rj83ne8 base 29), None),
    ("_56DPC59FBBHO3SI78II4HSSJ89M4ML1GKCL7F2L97E4B74RJ83NE8 base 29", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_56DPC59FBBHO3SI78II4HSSJ89M4ML1GKCL7F2L97E4B74RJ83NE8 base 29), Some((|| ibig!(_56DPC59FBBHO3SI78II4HSSJ89M4ML1GKCL7F2L97E4B74RJ83NE8 base 29), || ibig!(-_56DPC59FBBHO3SI78II4HSSJ89M4ML1GKCL7F2L97E4B74RJ83NE8 base 29)))),
    ("_imj5bcl96qi6mja4k7ekn3bb6k30rg89kel0n189sj4b35ilcr7lqmo0a76p0appf8 base 29", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_imj5bcl96qi6mja4k7ekn3bb6k30rg89kel0n189sj4b35ilcr7lqmo0a76p0appf8 base 29), None),
    ("_IMJ5BCL96QI6MJA4K7EKN3BB6K30RG89KEL0N189SJ4B35ILCR7LQMO0A76P0APPF8 base 29", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_IMJ5BCL96QI6MJA4K7EKN3BB6K30RG89KEL0N189SJ4B35ILCR7LQMO0A76P0APPF8 base 29), None),
    ("IMJ5BCL96QI6MJA4K7EKN3BB6K30RG89KEL0N189SJ4B35ILCR7LQMO0A76P0APPF8 base 29", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(IMJ5BCL96QI6MJA4K7EKN3BB6K30RG89KEL0N189SJ4B35ILCR7LQMO0A76P0APPF8 base 29), Some((|| ibig!(IMJ5BCL96QI6MJA4K7EKN3BB6K30RG89KEL0N189SJ4B35ILCR7LQMO0A76P0APPF8 base 29), || ibig!(-IMJ5BCL96QI6MJA4K7EKN3BB6K30RG89KEL0N189SJ4B35ILCR7LQMO0A76P0APPF8 base 29)))),
    ("_1ilbpb31seh54b7q8cjn2696rosojghpih4r9g16ke81k65 base 29", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_1ilbpb31seh54b7q8cjn2696rosojghpih4r9g16ke81k65 base 29), None),
    ("_1ILBPB31SEH54B7Q8CJN2696ROSOJGHPIH4R9G16KE81K65 base 29", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_1ILBPB31SEH54B7Q8CJN2696ROSOJGHPIH4R9G16KE81K65 base 29), None),
    ("_1000000000000 base 29", Some("4e900abb53e6b71"), || ubig!(_1000000000000 base 29), Some((|| ibig!(_1000000000000 base 29), || ibig!(-_1000000000000 base 29)))),
    ("_ssssssssssssssssssssssssssssssssssssssss base 29", Some("4fd9df9dbf7e28ed5357ba4a062c19c48e628f6af73b06120"), || ubig!(_ssssssssssssssssssssssssssssssssssssssss base 29), None),
    ("_SSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSS base 29", Some("4fd9df9dbf7e28ed5357ba4a062c19c48e628f6af73b06120"), || ubig!(_SSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSS base 29), None),
    ("SSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSS base 29", Some("4fd9df9dbf7e28ed5357ba4a062c19c48e628f6af73b06120"), || ubig!(SSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSS base 29), Some((|| ibig!(SSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSS base 29), || ibig!(-SSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSSS base 29)))),
    ("_100000000000000000000000000000000000000000 base 29", Some("90bae54deb14aa2e270f01a62b2feeb44212a3f1e01afb00bd"), || ubig!(_100000000000000000000000000000000000000000 base 29), None),
    ("_1_0 base 29", None, || ubig!(_1_0 base 29), None),
    ("__1 base 29", None, || ubig!(__1 base 29), Some((|| ibig!(__1 base 29), || ibig!(-__1 base 29)))),
    ("1_0 base 29", None, || ubig!(1_0 base 29), None),
    ("_0 base 30", Some("0"), || ubig!(_0 base 30), None),
    ("0 base 30", Some("0"), || ubig!(0 base 30), Some((|| ibig!(0 base 30), || ibig!(-0 base 30)))),
    ("_1 base 30", Some("1"), || ubig!(_1 base 30), None),
    ("1 base 30", Some("1"), || ubig!(1 base 30), None),
    ("_f base 30", Some("f"), || ubig!(_f base 30), Some((|| ibig!(_f base 30), || ibig!(-_f base 30)))),
    ("f base 30", Some("f"), || ubig!(f base 30), None),
    ("_t base 30", Some("1d"), || ubig!(_t base 30), None),
    ("t base 30", Some("1d"), || ubig!(t base 30), Some((|| ibig!(t base 30), || ibig!(-t base 30)))),
    ("_u base 30", None, || ubig!(_u base 30), None),
    ("u base 30", None, || ubig!(u base 30), None),
    ("_00 base 30", Some("0"), || ubig!(_00 base 30), Some((|| ibig!(_00 base 30), || ibig!(-_00 base 30)))),
    ("00 base 30", Some("0"), || ubig!(00 base 30), None),
    ("_01 base 30", Some("1"), || ubig!(_01 base 30), None),
    ("01 base 30", Some("1"), || ubig!(01 base 30), Some((|| ibig!(01 base 30), || ibig!(-01 base 30)))),
    ("_0f base 30", Some("f"), || ubig!(_0f base 30), None),
    ("_0t base 30", Some("1d"), || ubig!(_0t base 30), None),
    ("_0u base 30", None, || ubig!(_0u base 30), Some((|| ibig!(_0u base 30), || ibig!(-_0u base 30)))),
    ("_10 base 30", Some("1e"), || ubig!(_10 base 30), None),
    ("10 base 30", Some("1e"), || ubig!(10 base 30), None),
    ("_11 base 30", Some("1f"), || ubig!(_11 base 30), Some((|| ibig!(_11 base 30), || ibig!(-_11 base 30)))),
    ("11 base 30", Some("1f"), || ubig!(11 base 30), None),
    ("_1f base 30", Some("2d"), || ubig!(_1f base 30), None),
    ("_1t base 30", Some("3b"), || ubig!(_1t base 30), Some((|| ibig!(_1t base 30), || ibig!(-_1t base 30)))),
    ("_1u base 30", None, || ubig!(_1u base 30), None),
    ("_f0 base 30", Some("1c2"), || ubig!(_f0 base 30), None),
    ("f0 base 30", Some("1c2"), || ubig!(f0 base 30), Some((|| ibig!(f0 base 30), || ibig!(-f0 base 30)))),
    ("_f1 base 30", Some("1c3"), || ubig!(_f1 base 30), None),
    ("f1 base 30", Some("1c3"), || ubig!(f1 base 30), None),
    ("_ff base 30", Some("1d1"), || ubig!(_ff base 30), Some((|| ibig!(_ff base 30), || ibig!(-_ff base 30)))),
    ("ff base 30", Some("1d1"), || ubig!(ff base 30), None),
    ("_ft base 30", Some("1df"), || ubig!(_ft base 30), None),
    ("ft base 30", Some("1df"), || ubig!(ft base 30), Some((|| ibig!(ft base 30), || ibig!(-ft base 30)))),
    ("_fu base 30", None, || ubig!(_fu base 30), None),
    ("fu base 30", None, || ubig!(fu base 30), None),
    ("_t0 base 30", Some("366"), || ubig!(_t0 base 30), Some((|| ibig!(_t0 base 30), || ibig!(-_t0 base 30)))),
    ("t0 base 30", Some("366"), || ubig!(t0 base 30), None),
    ("_t1 base 30", Some("367"), || ubig!(_t1 base 30), None),
    ("t1 base 30", Some("367"), || ubig!(t1 base 30), Some((|| ibig!(t1 base 30), || ibig!(-t1 base 30)))),
    ("_tf base 30", Some("375"), || ubig!(_tf base 30), None),
    ("tf base 30", Some("375"), || ubig!(tf base 30), None),
    ("_tt base 30", Some("383"), || ubig!(_tt base 30), Some((|| ibig!(_tt base 30), || ibig!(-_tt base 30)))),
    ("tt base 30", Some("383"), || ubig!(tt base 30), None),
    ("_tu base 30", None, || ubig!(_tu base 30), None),
    ("tu base 30", None, || ubig!(tu base 30), Some((|| ibig!(tu base 30), || ibig!(-tu base 30)))),
    ("_u0 base 30", None, || ubig!(_u0 base 30), None),
    ("u0 base 30", None, || ubig!(u0 base 30), None),
    ("_u1 base 30", None, || ubig!(_u1 base 30), Some((|| ibig!(_u1 base 30), || ibig!(-_u1 base 30)))),
    ("u1 base 30", None, || ubig!(u1 base 30), None),
    ("_uf base 30", None, || ubig!(_uf base 30), None),
    ("uf base 30", None, || ubig!(uf base 30), Some((|| ibig!(uf base 30), || ibig!(-uf base 30)))),
    ("_ut base 30", None, || ubig!(_ut base 30), None),
    ("ut base 30", None, || ubig!(ut base 30), None),
    ("_uu base 30", None, || ubig!(_uu base 30), Some((|| ibig!(_uu base 30), || ibig!(-_uu base 30)))),
    ("uu base 30", None, || ubig!(uu base 30), None),
    ("_47 base 30", Some("7f"), || ubig!(_47 base 30), None),
    ("_16c8 base 30", Some("8000"), || ubig!(_16c8 base 30), Some((|| ibig!(_16c8 base 30), || ibig!(-_16c8 base 30)))),
    ("_16C8 base 30", Some("8000"), || ubig!(_16C8 base 30), None),
    ("_4pj3 base 30", Some("20001"), || ubig!(_4pj3 base 30), None),
    ("_4PJ3 base 30", Some("20001"), || ubig!(_4PJ3 base 30), Some((|| ibig!(_4PJ3 base 30), || ibig!(-_4PJ3 base 30)))),
    ("_bnepln1 base 30", Some("1ffffffff"), || ubig!(_bnepln1 base 30), None),
    ("_BNEPLN1 base 30", Some("1ffffffff"), || ubig!(_BNEPLN1 base 30), None),
    ("BNEPLN1 base 30", Some("1ffffffff"), || ubig!(BNEPLN1 base 30), Some((|| ibig!(BNEPLN1 base 30), || ibig!(-BNEPLN1 base 30)))),
    ("_e90b2b7csg base 30", Some("1000000000000"), || ubig!(_e90b2b7csg base 30), None),
    ("_E90B2B7CSG base 30", Some("1000000000000"), || ubig!(_E90B2B7CSG base 30), None),
    ("E90B2B7CSG base 30", Some("1000000000000"), || ubig!(E90B2B7CSG base 30), Some((|| ibig!(E90B2B7CSG base 30), || ibig!(-E90B2B7CSG base 30)))),
    ("_14l9lkmo30o40h base 30", Some("10000000000000001"), || ubig!(_14l9lkmo30o40h base 30), None),
    ("_14L9LKMO30O40H base 30", Some("10000000000000001"), || ubig!(_14L9LKMO30O40H base 30), None),
    ("_2o7gr6ar4l65bat2f base 30", Some("ffffffffffffffffffff"), || ubig!(_2o7gr6ar4l65bat2f base 30), Some((|| ibig!(_2o7gr6ar4l65bat2f base 30), || ibig!(-_2o7gr6ar4l65bat2f base 30)))),
    ("_2O7GR6AR4L65BAT2F base 30", Some("ffffffffffffffffffff"), || ubig!(_2O7GR6AR4L65BAT2F base 30), None),
    ("_6of1gq1n8p494q8j5s4g base 30", Some("1000000000000000000000000"), || ubig!(_6of1gq1n8p494q8j5s4g base 30), None),
    ("_6OF1GQ1N8P494Q8J5S4G base 30", Some("1000000000000000000000000"), || ubig!(_6OF1GQ1N8P494Q8J5S4G base 30), Some((|| ibig!(_6OF1GQ1N8P494Q8J5S4G base 30), || ibig!(-_6OF1GQ1N8P494Q8J5S4G base 30)))),
    ("_k2chs8jacc5g718abkqgokq449 base 30", Some("80000000000000000000000000000001"), || ubig!(_k2chs8jacc5g718abkqgokq449 base 30), None),
    ("_K2CHS8JACC5G718ABKQGOKQ449 base 30", Some("80000000000000000000000000000001"), || ubig!(_K2CHS8JACC5G718ABKQGOKQ449 base 30), None),
    ("K2CHS8JACC5G718ABKQGOKQ449 base 30", Some("80000000000000000000000000000001"), || ubig!(K2CHS8JACC5G718ABKQGOKQ449 base 30), Some((|| ibig!(K2CHS8JACC5G718ABKQGOKQ449 base 30), || ibig!(-K2CHS8JACC5G718ABKQGOKQ449 base 30)))),
    ("_7qichhpqj4qqrlnr2so4ndpfc8hfih4cf base 30", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_7qichhpqj4qqrlnr2so4ndpfc8hfih4cf base 30), None),
    ("_7QICHHPQJ4QQRLNR2SO4NDPFC8HFIH4CF base 30", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_7QICHHPQJ4QQRLNR2SO4NDPFC8HFIH4CF base 30), None),
    ("_qqdtgo0ijmmklt506atd31tetoksq4rkcjqe1clibmtj99b81ec8 base 30", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_qqdtgo0ijmmklt506atd31tetoksq4rkcjqe1clibmtj99b81ec8 base 30), Some((|| ibig!(_qqdtgo0ijmmklt506atd31tetoksq4rkcjqe1clibmtj99b81ec8 base 30), || ibig!(-_qqdtgo0ijmmklt506atd31tetoksq4rkcjqe1clibmtj99b81ec8 base 30)))),
    ("_QQDTGO0IJMMKLT506ATD31TETOKSQ4RKCJQE1CLIBMTJ99B81EC8 base 30", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_QQDTGO0IJMMKLT506ATD31TETOKSQ4RKCJQE1CLIBMTJ99B81EC8 base 30), None),
    ("QQDTGO0IJMMKLT506ATD31TETOKSQ4RKCJQE1CLIBMTJ99B81EC8 base 30", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(QQDTGO0IJMMKLT506ATD31TETOKSQ4RKCJQE1CLIBMTJ99B81EC8 base 30), None),
    ("_22665a3d4nn9k1fb5t1t9b8444nbajp411isli9f9ptjdos7tttij9n1n41n21jf2h base 30", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_22665a3d4nn9k1fb5t1t9b8444nbajp411isli9f9ptjdos7tttij9n1n41n21jf2h base 30), Some((|| ibig!(_22665a3d4nn9k1fb5t1t9b8444nbajp411isli9f9ptjdos7tttij9n1n41n21jf2h base 30), || ibig!(-_22665a3d4nn9k1fb5t1t9b8444nbajp411isli9f9ptjdos7tttij9n1n41n21jf2h base 30)))),
    ("_22665A3D4NN9K1FB5T1T9B8444NBAJP411ISLI9F9PTJDOS7TTTIJ9N1N41N21JF2H base 30", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_22665A3D4NN9K1FB5T1T9B8444NBAJP411ISLI9F9PTJDOS7TTTIJ9N1N41N21JF2H base 30), None),
    ("_abej4toc3apk4h3p49n7kp7hogmhmq3m0cnibjcs4j0o80 base 30", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_abej4toc3apk4h3p49n7kp7hogmhmq3m0cnibjcs4j0o80 base 30), None),
    ("_ABEJ4TOC3APK4H3P49N7KP7HOGMHMQ3M0CNIBJCS4J0O80 base 30", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_ABEJ4TOC3APK4H3P49N7KP7HOGMHMQ3M0CNIBJCS4J0O80 base 30), Some((|| ibig!(_ABEJ4TOC3APK4H3P49N7KP7HOGMHMQ3M0CNIBJCS4J0O80 base 30), || ibig!(-_ABEJ4TOC3APK4H3P49N7KP7HOGMHMQ3M0CNIBJCS4J0O80 base 30)))),
    ("ABEJ4TOC3APK4H3P49N7KP7HOGMHMQ3M0CNIBJCS4J0O80 base 30", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(ABEJ4TOC3APK4H3P49N7KP7HOGMHMQ3M0CNIBJCS4J0O80 base 30), None),
    ("_1000000000000 base 30", Some("7600ec618141000"), || ubig!(_1000000000000 base 30), None),
    ("_tttttttttttttttttttttttttttttttttttttttt base 30", Some("135e477ff5f32ee15e5500a491c65138e9178980ffffffffff"), || ubig!(_tttttttttttttttttttttttttttttttttttttttt base 30), Some((|| ibig!(_tttttttttttttttttttttttttttttttttttttttt base 30), || ibig!(-_tttttttttttttttttttttttttttttttttttttttt base 30)))),
    ("_TTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTT base 30", Some("135e477ff5f32ee15e5500a491c65138e9178980ffffffffff"), || ubig!(_TTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTT base 30), None),
    ("TTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTT base 30", Some("135e477ff5f32ee15e5500a491c65138e9178980ffffffffff"), || ubig!(TTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTTT base 30), None),
    ("_100000000000000000000000000000000000000000 base 30", Some("2450c60fed27f7e690df61349153d84ab50c21d1e0000000000"), || ubig!(_100000000000000000000000000000000000000000 base 30), Some((|| ibig!(_100000000000000000000000000000000000000000 base 30), || ibig!(-_100000000000000000000000000000000000000000 base 30)))),
    ("_1_0 base 30", None, || ubig!(_1_0 base 30), None),
    ("__1 base 30", None, || ubig!(__1 base 30), None),
    ("1_0 base 30", None, || ubig!(1_0 base 30), Some((|| ibig!(1_0 base 30), || ibig!(-1_0 base 30)))),
    ("_0 base 31", Some("0"), || ubig!(_0 base 31), None),
    ("0 base 31", Some("0"), || ubig!(0 base 31), None),
    ("_1 base 31", Some("1"), || ubig!(_1 base 31), Some((|| ibig!(_1 base 31), || ibig!(-_1 base 31)))),
    ("1 base 31", Some("1"), || ubig!(1 base 31), None),
    ("_f base 31", Some("f"), || ubig!(_f base 31), None),
    ("f base 31", Some("f"), || ubig!(f base 31), Some((|| ibig!(f base 31), || ibig!(-f base 31)))),
    ("_u base 31", Some("1e"), || ubig!(_u base 31), None),
    ("u base 31", Some("1e"), || ubig!(u base 31), None),
    ("_v base 31", None, || ubig!(_v base 31), Some((|| ibig!(_v base 31), || ibig!(-_v base 31)))),
    ("v base 31", None, || ubig!(v base 31), None),
    ("_00 base 31", Some("0"), || ubig!(_00 base 31), None),
    ("00 base 31", Some("0"), || ubig!(00 base 31), Some((|| ibig!(00 base 31), || ibig!(-00 base 31)))),
    ("_01 base 31", Some("1"), || ubig!(_01 base 31), None),
    ("01 base 31", Some("1"), || ubig!(01 base 31), None),
    ("_0f base 31", Some("f"), || ubig!(_0f base 31), Some((|| ibig!(_0f base 31), || ibig!(-_0f base 31)))),
    ("_0u base 31", Some("1e"), || ubig!(_0u base 31), None),
    ("_0v base 31", None, || ubig!(_0v base 31), None),
    ("_10 base 31", Some("1f"), || ubig!(_10 base 31), Some((|| ibig!(_10 base 31), || ibig!(-_10 base 31)))),
    ("10 base 31", Some("1f"), || ubig!(10 base 31), None),
    ("_11 base 31", Some("20"), || ubig!(_11 base 31), None),
    ("11 base 31", Some("20"), || ubig!(11 base 31), Some((|| ibig!(11 base 31), || ibig!(-11 base 31)))),
    ("_1f base 31", Some("2e"), || ubig!(_1f base 31), None),
    ("_1u base 31", Some("3d"), || ubig!(_1u base 31), None),
    ("_1v base 31", None, || ubig!(_1v base 31), Some((|| ibig!(_1v base 31), || ibig!(-_1v base 31)))),
    ("_f0 base 31", Some("1d1"), || ubig!(_f0 base 31), None),
    ("f0 base 31", Some("1d1"), || ubig!(f0 base 31), None),
];
pub static PART30: &[Row] = &[
    ("_f1 base 31", Some("1d2"), || ubig!(_f1 base 31), Some((|| ibig!(_f1 base 31), || ibig!(-_f1 base 31)))),
    ("f1 base 31", Some("1d2"), || ubig!(f1 base 31), None),
    ("_ff base 31", Some("1e0"), || ubig!(_ff base 31), None),
    ("ff base 31", Some("1e0"), || ubig!(ff base 31), Some((|| ibig!(ff base 31), || ibig!(-ff base 31)))),
    ("_fu base 31", Some("1ef"), || ubig!(_fu base 31), None),
    ("fu base 31", Some("1ef"), || ubig!(fu base 31), None),
    ("_fv base 31", None, || ubig!(_fv base 31), Some((|| ibig!(_fv base 31), || ibig!(-_fv base 31)))),
    ("fv base 31", None, || ubig!(fv base 31), None),
    ("_u0 base 31", Some("3a2"), || ubig!(_u0 base 31), None),
    ("u0 base 31", Some("3a2"), || ubig!(u0 base 31), Some((|| ibig!(u0 base 31), || ibig!(-u0 base 31)))),
    ("_u1 base 31", Some("3a3"), || ubig!(_u1 base 31), None),
    ("u1 base 31", Some("3a3"), || ubig!(u1 base 31), None),
    ("_uf base 31", Some("3b1"), || ubig!(_uf base 31), Some((|| ibig!(_uf base 31), || ibig!(-_uf base 31)))),
    ("uf base 31", Some("3b1"), || ubig!(uf base 31), None),
    ("_uu base 31", Some("3c0"), || ubig!(_uu base 31), None),
    ("uu base 31", Some("3c0"), || ubig!(uu base 31), Some((|| ibig!(uu base 31), || ibig!(-uu base 31)))),
    ("_uv base 31", None, || ubig!(_uv base 31), None),
    ("uv base 31", None, || ubig!(uv base 31), None),
    ("_v0 base 31", None, || ubig!(_v0 base 31), Some((|| ibig!(_v0 base 31), || ibig!(-_v0 base 31)))),
    ("v0 base 31", None, || ubig!(v0 base 31), None),
    ("_v1 base 31", None, || ubig!(_v1 base 31), None),
    ("v1 base 31", None, || ubig!(v1 base 31), Some((|| ibig!(v1 base 31), || ibig!(-v1 base 31)))),
    ("_vf base 31", None, || ubig!(_vf base 31), None),
    ("vf base 31", None, || ubig!(vf base 31), None),
    ("_vu base 31", None, || ubig!(_vu base 31), Some((|| ibig!(_vu base 31), || ibig!(-_vu base 31)))),
    ("vu base 31", None, || ubig!(vu base 31), None),
    ("_vv base 31", None, || ubig!(_vv base 31), None),
    ("vv base 31", None, || ubig!(vv base 31), Some((|| ibig!(vv base 31), || ibig!(-vv base 31)))),
    ("_43 base 31", Some("7f"), || ubig!(_43 base 31), None),
    ("_1331 base 31", Some("8000"), || ubig!(_1331 base 31), None),
    ("_4cc5 base 31", Some("20001"), || ubig!(_4cc5 base 31), Some((|| ibig!(_4cc5 base 31), || ibig!(-_4cc5 base 31)))),
    ("_4CC5 base 31", Some("20001"), || ubig!(_4CC5 base 31), None),
    ("_9l18sh7 base 31", Some("1ffffffff"), || ubig!(_9l18sh7 base 31), None),
    ("_9L18SH7 base 31", Some("1ffffffff"), || ubig!(_9L18SH7 base 31), Some((|| ibig!(_9L18SH7 base 31), || ibig!(-_9L18SH7 base 31)))),
    ("_ak0ni6uba8 base 31", Some("1000000000000"), || ubig!(_ak0ni6uba8 base 31), None),
    ("_AK0NI6UBA8 base 31", Some("1000000000000"), || ubig!(_AK0NI6UBA8 base 31), None),
    ("AK0NI6UBA8 base 31", Some("1000000000000"), || ubig!(AK0NI6UBA8 base 31), Some((|| ibig!(AK0NI6UBA8 base 31), || ibig!(-AK0NI6UBA8 base 31)))),
    ("_nd075ib45k86h base 31", Some("10000000000000001"), || ubig!(_nd075ib45k86h base 31), None),
    ("_ND075IB45K86H base 31", Some("10000000000000001"), || ubig!(_ND075IB45K86H base 31), None),
    ("ND075IB45K86H base 31", Some("10000000000000001"), || ubig!(ND075IB45K86H base 31), Some((|| ibig!(ND075IB45K86H base 31), || ibig!(-ND075IB45K86H base 31)))),
    ("_1kg3gjkpafsp95rg0 base 31", Some("ffffffffffffffffffff"), || ubig!(_1kg3gjkpafsp95rg0 base 31), None),
    ("_1KG3GJKPAFSP95RG0 base 31", Some("ffffffffffffffffffff"), || ubig!(_1KG3GJKPAFSP95RG0 base 31), None),
    ("_3kad66igr9iu2sa2r272 base 31", Some("1000000000000000000000000"), || ubig!(_3kad66igr9iu2sa2r272 base 31), Some((|| ibig!(_3kad66igr9iu2sa2r272 base 31), || ibig!(-_3kad66igr9iu2sa2r272 base 31)))),
    ("_3KAD66IGR9IU2SA2R272 base 31", Some("1000000000000000000000000"), || ubig!(_3KAD66IGR9IU2SA2R272 base 31), None),
    ("_8q7cd4uoh31nng3aqs4edr0p75 base 31", Some("80000000000000000000000000000001"), || ubig!(_8q7cd4uoh31nng3aqs4edr0p75 base 31), None),
    ("_8Q7CD4UOH31NNG3AQS4EDR0P75 base 31", Some("80000000000000000000000000000001"), || ubig!(_8Q7CD4UOH31NNG3AQS4EDR0P75 base 31), Some((|| ibig!(_8Q7CD4UOH31NNG3AQS4EDR0P75 base 31), || ibig!(-_8Q7CD4UOH31NNG3AQS4EDR0P75 base 31)))),
    ("_2nj90c99if4ctj9e755traq42nni5g110 base 31", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_2nj90c99if4ctj9e755traq42nni5g110 base 31), None),
    ("_2NJ90C99IF4CTJ9E755TRAQ42NNI5G110 base 31", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_2NJ90C99IF4CTJ9E755TRAQ42NNI5G110 base 31), None),
    ("_51g1noqbrmoompu4i2k5suj8js5o24r32qek7a2hmrg633r035k1 base 31", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_51g1noqbrmoompu4i2k5suj8js5o24r32qek7a2hmrg633r035k1 base 31), Some((|| ibig!(_51g1noqbrmoompu4i2k5suj8js5o24r32qek7a2hmrg633r035k1 base 31), || ibig!(-_51g1noqbrmoompu4i2k5suj8js5o24r32qek7a2hmrg633r035k1 base 31)))),
    ("_51G1NOQBRMOOMPU4I2K5SUJ8JS5O24R32QEK7A2HMRG633R035K1 base 31", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_51G1NOQBRMOOMPU4I2K5SUJ8JS5O24R32QEK7A2HMRG633R035K1 base 31), None),
    ("_7jf5d9hb5m4per4182m9eufo4p7508qtmar7eur40fdj3pgkc9ihs6m4ok9hd3322 base 31", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_7jf5d9hb5m4per4182m9eufo4p7508qtmar7eur40fdj3pgkc9ihs6m4ok9hd3322 base 31), None),
    ("_7JF5D9HB5M4PER4182M9EUFO4P7508QTMAR7EUR40FDJ3PGKC9IHS6M4OK9HD3322 base 31", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_7JF5D9HB5M4PER4182M9EUFO4P7508QTMAR7EUR40FDJ3PGKC9IHS6M4OK9HD3322 base 31), Some((|| ibig!(_7JF5D9HB5M4PER4182M9EUFO4P7508QTMAR7EUR40FDJ3PGKC9IHS6M4OK9HD3322 base 31), || ibig!(-_7JF5D9HB5M4PER4182M9EUFO4P7508QTMAR7EUR40FDJ3PGKC9IHS6M4OK9HD3322 base 31)))),
    ("_2big0f93bpq2ed572444bd2djs0527901q0oerci0034d8 base 31", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_2big0f93bpq2ed572444bd2djs0527901q0oerci0034d8 base 31), None),
    ("_2BIG0F93BPQ2ED572444BD2DJS0527901Q0OERCI0034D8 base 31", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_2BIG0F93BPQ2ED572444BD2DJS0527901Q0OERCI0034D8 base 31), None),
    ("_1000000000000 base 31", Some("aee5720ee830681"), || ubig!(_1000000000000 base 31), Some((|| ibig!(_1000000000000 base 31), || ibig!(-_1000000000000 base 31)))),
    ("_uuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuu base 31", Some("47e58a1aa0d238435cca7ffc70191d8695694faa2c8ca02b00"), || ubig!(_uuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuuu base 31), None),
    ("_UUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUU base 31", Some("47e58a1aa0d238435cca7ffc70191d8695694faa2c8ca02b00"), || ubig!(_UUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUU base 31), None),
    ("UUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUU base 31", Some("47e58a1aa0d238435cca7ffc70191d8695694faa2c8ca02b00"), || ubig!(UUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUU base 31), Some((|| ibig!(UUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUU base 31), || ibig!(-UUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUU base 31)))),
    ("_100000000000000000000000000000000000000000 base 31", Some("8b4cbb9397974d0283c857f91930a934c17c0a59b650765351f"), || ubig!(_100000000000000000000000000000000000000000 base 31), None),
    ("_1_0 base 31", None, || ubig!(_1_0 base 31), None),
    ("__1 base 31", None, || ubig!(__1 base 31), Some((|| ibig!(__1 base 31), || ibig!(-__1 base 31)))),
    ("1_0 base 31", None, || ubig!(1_0 base 31), None),
    ("_0 base 32", Some("0"), || ubig!(_0 base 32), None),
    ("0 base 32", Some("0"), || ubig!(0 base 32), Some((|| ibig!(0 base 32), || ibig!(-0 base 32)))),
    ("_1 base 32", Some("1"), || ubig!(_1 base 32), None),
    ("1 base 32", Some("1"), || ubig!(1 base 32), None),
    ("_g base 32", Some("10"), || ubig!(_g base 32), Some((|| ibig!(_g base 32), || ibig!(-_g base 32)))),
    ("g base 32", Some("10"), || ubig!(g base 32), None),
    ("_v base 32", Some("1f"), || ubig!(_v base 32), None),
    ("v base 32", Some("1f"), || ubig!(v base 32), Some((|| ibig!(v base 32), || ibig!(-v base 32)))),
    ("_w base 32", None, || ubig!(_w base 32), None),
    ("w base 32", None, || ubig!(w base 32), None),
    ("_00 base 32", Some("0"), || ubig!(_00 base 32), Some((|| ibig!(_00 base 32), || ibig!(-_00 base 32)))),
    ("00 base 32", Some("0"), || ubig!(00 base 32), None),
    ("_01 base 32", Some("1"), || ubig!(_01 base 32), None),
    ("01 base 32", Some("1"), || ubig!(01 base 32), Some((|| ibig!(01 base 32), || ibig!(-01 base 32)))),
    ("_0g base 32", Some("10"), || ubig!(_0g base 32), None),
    ("_0v base 32", Some("1f"), || ubig!(_0v base 32), None),
    ("_0w base 32", None, || ubig!(_0w base 32), Some((|| ibig!(_0w base 32), || ibig!(-_0w base 32)))),
    ("_10 base 32", Some("20"), || ubig!(_10 base 32), None),
    ("10 base 32", Some("20"), || ubig!(10 base 32), None),
    ("_11 base 32", Some("21"), || ubig!(_11 base 32), Some((|| ibig!(_11 base 32), || ibig!(-_11 base 32)))),
    ("11 base 32", Some("21"), || ubig!(11 base 32), None),
    ("_1g base 32", Some("30"), || ubig!(_1g base 32), None),
    ("_1v base 32", Some("3f"), || ubig!(_1v base 32), Some((|| ibig!(_1v base 32), || ibig!(-_1v base 32)))),
    ("_1w base 32", None, || ubig!(_1w base 32), None),
    ("_g0 base 32", Some("200"), || ubig!(_g0 base 32), None),
    ("g0 base 32", Some("200"), || ubig!(g0 base 32), Some((|| ibig!(g0 base 32), || ibig!(-g0 base 32)))),
    ("_g1 base 32", Some("201"), || ubig!(_g1 base 32), None),
    ("g1 base 32", Some("201"), || ubig!(g1 base 32), None),
    ("_gg base 32", Some("210"), || ubig!(_gg base 32), Some((|| ibig!(_gg base 32), || ibig!(-_gg base 32)))),
    ("gg base 32", Some("210"), || ubig!(gg base 32), None),
    ("_gv base 32", Some("21f"), || ubig!(_gv base 32), None),
    ("gv base 32", Some("21f"), || ubig!(gv base 32), Some((|| ibig!(gv base 32), || ibig!(-gv base 32)))),
    ("_gw base 32", None, || ubig!(_gw base 32), None),
    ("gw base 32", None, || ubig!(gw base 32), None),
    ("_v0 base 32", Some("3e0"), || ubig!(_v0 base 32), Some((|| ibig!(_v0 base 32), || ibig!(-_v0 base 32)))),
    ("v0 base 32", Some("3e0"), || ubig!(v0 base 32), None),
    ("_v1 base 32", Some("3e1"), || ubig!(_v1 base 32), None),
    ("v1 base 32", Some("3e1"), || ubig!(v1 base 32), Some((|| ibig!(v1 base 32), || ibig!(-v1 base 32)))),
    ("_vg base 32", Some("3f0"), || ubig!(_vg base 32), None),
    ("vg base 32", Some("3f0"), || ubig!(vg base 32), None),
    ("_vv base 32", Some("3ff"), || ubig!(_vv base 32), Some((|| ibig!(_vv base 32), || ibig!(-_vv base 32)))),
    ("vv base 32", Some("3ff"), || ubig!(vv base 32), None),
    ("_vw base 32", None, || ubig!(_vw base 32), None),
    ("vw base 32", None, || ubig!(vw base 32), Some((|| ibig!(vw base 32), || ibig!(-vw base 32)))),
    ("_w0 base 32", None, || ubig!(_w0 base 32), None),
    ("w0 base 32", None, || ubig!(w0 base 32), None),
    ("_w1 base 32", None, || ubig!(_w1 base 32), Some((|| ibig!(_w1 base 32), || ibig!(-_w1 base 32)))),
    ("w1 base 32", None, || ubig!(w1 base 32), None),
    ("_wg base 32", None, || ubig!(_wg base 32), None),
    ("wg base 32", None, || ubig!(wg base 32), Some((|| ibig!(wg base 32), || ibig!(-wg base 32)))),
    ("_wv base 32", None, || ubig!(_wv base 32), None),
    ("wv base 32", None, || ubig!(wv base 32), None),
    ("_ww base 32", None, || ubig!(_ww base 32), Some((|| ibig!(_ww base 32), || ibig!(-_ww base 32)))),
    ("ww base 32", None, || ubig!(ww base 32), None),
    ("_3v base 32", Some("7f"), || ubig!(_3v base 32), None),
    ("_3V base 32", Some("7f"), || ubig!(_3V base 32), Some((|| ibig!(_3V base 32), || ibig!(-_3V base 32)))),
    ("_1000 base 32", Some("8000"), || ubig!(_1000 base 32), None),
    ("_4001 base 32", Some("20001"), || ubig!(_4001 base 32), None),
    ("_7vvvvvv base 32", Some("1ffffffff"), || ubig!(_7vvvvvv base 32), Some((|| ibig!(_7vvvvvv base 32), || ibig!(-_7vvvvvv base 32)))),
    ("_7VVVVVV base 32", Some("1ffffffff"), || ubig!(_7VVVVVV base 32), None),
    ("_8000000000 base 32", Some("1000000000000"), || ubig!(_8000000000 base 32), None),
    ("_g000000000001 base 32", Some("10000000000000001"), || ubig!(_g000000000001 base 32), Some((|| ibig!(_g000000000001 base 32), || ibig!(-_g000000000001 base 32)))),
    ("_G000000000001 base 32", Some("10000000000000001"), || ubig!(_G000000000001 base 32), None),
    ("G000000000001 base 32", Some("10000000000000001"), || ubig!(G000000000001 base 32), None),
    ("_vvvvvvvvvvvvvvvv base 32", Some("ffffffffffffffffffff"), || ubig!(_vvvvvvvvvvvvvvvv base 32), Some((|| ibig!(_vvvvvvvvvvvvvvvv base 32), || ibig!(-_vvvvvvvvvvvvvvvv base 32)))),
    ("_VVVVVVVVVVVVVVVV base 32", Some("ffffffffffffffffffff"), || ubig!(_VVVVVVVVVVVVVVVV base 32), None),
    ("VVVVVVVVVVVVVVVV base 32", Some("ffffffffffffffffffff"), || ubig!(VVVVVVVVVVVVVVVV base 32), None),
    ("_20000000000000000000 base 32", Some("1000000000000000000000000"), || ubig!(_20000000000000000000 base 32), Some((|| ibig!(_20000000000000000000 base 32), || ibig!(-_20000000000000000000 base 32)))),
    ("_40000000000000000000000001 base 32", Some("80000000000000000000000000000001"), || ubig!(_40000000000000000000000001 base 32), None),
    ("_vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv base 32", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv base 32), None),
    ("_VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32), Some((|| ibig!(_VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32), || ibig!(-_VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32)))),
    ("VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32), None),
    ("_1000000000000000000000000000000000000000000000000000 base 32", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_1000000000000000000000000000000000000000000000000000 base 32), None),
    ("_10000000000000000000000000000000000000000000000000000000000000001 base 32", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_10000000000000000000000000000000000000000000000000000000000000001 base 32), Some((|| ibig!(_10000000000000000000000000000000000000000000000000000000000000001 base 32), || ibig!(-_10000000000000000000000000000000000000000000000000000000000000001 base 32)))),
    ("_i6hb7h6lsrroftn5qj1r58cgg00000000000000000000 base 32", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_i6hb7h6lsrroftn5qj1r58cgg00000000000000000000 base 32), None),
    ("_I6HB7H6LSRROFTN5QJ1R58CGG00000000000000000000 base 32", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_I6HB7H6LSRROFTN5QJ1R58CGG00000000000000000000 base 32), None),
    ("I6HB7H6LSRROFTN5QJ1R58CGG00000000000000000000 base 32", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(I6HB7H6LSRROFTN5QJ1R58CGG00000000000000000000 base 32), Some((|| ibig!(I6HB7H6LSRROFTN5QJ1R58CGG00000000000000000000 base 32), || ibig!(-I6HB7H6LSRROFTN5QJ1R58CGG00000000000000000000 base 32)))),
    ("_1000000000000 base 32", Some("1000000000000000"), || ubig!(_1000000000000 base 32), None),
    ("_vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv base 32", Some("ffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv base 32), None),
    ("_VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32", Some("ffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(_VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32), Some((|| ibig!(_VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32), || ibig!(-_VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32)))),
    ("VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32", Some("ffffffffffffffffffffffffffffffffffffffffffffffffff"), || ubig!(VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV base 32), None),
    ("_100000000000000000000000000000000000000000 base 32", Some("2000000000000000000000000000000000000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 32), None),
    ("_1_0 base 32", None, || ubig!(_1_0 base 32), Some((|| ibig!(_1_0 base 32), || ibig!(-_1_0 base 32)))),
    ("__1 base 32", None, || ubig!(__1 base 32), None),
    ("1_0 base 32", None, || ubig!(1_0 base 32), None),
    ("_0 base 33", Some("0"), || ubig!(_0 base 33), Some((|| ibig!(_0 base 33), || ibig!(-_0 base 33)))),
    ("0 base 33", Some("0"), || ubig!(0 base 33), None),
    ("_1 base 33", Some("1"), || ubig!(_1 base 33), None),
];
pub static PART31: &[Row] = &[
    ("1 base 33", Some("1"), || ubig!(1 base 33), Some((|| ibig!(1 base 33), || ibig!(-1 base 33)))),
    ("_g base 33", Some("10"), || ubig!(_g base 33), None),
    ("g base 33", Some("10"), || ubig!(g base 33), None),
    ("_w base 33", Some("20"), || ubig!(_w base 33), Some((|| ibig!(_w base 33), || ibig!(-_w base 33)))),
    ("w base 33", Some("20"), || ubig!(w base 33), None),
    ("_x base 33", None, || ubig!(_x base 33), None),
    ("x base 33", None, || ubig!(x base 33), Some((|| ibig!(x base 33), || ibig!(-x base 33)))),
    ("_00 base 33", Some("0"), || ubig!(_00 base 33), None),
    ("00 base 33", Some("0"), || ubig!(00 base 33), None),
    ("_01 base 33", Some("1"), || ubig!(_01 base 33), Some((|| ibig!(_01 base 33), || ibig!(-_01 base 33)))),
    ("01 base 33", Some("1"), || ubig!(01 base 33), None),
    ("_0g base 33", Some("10"), || ubig!(_0g base 33), None),
    ("_0w base 33", Some("20"), || ubig!(_0w base 33), Some((|| ibig!(_0w base 33), || ibig!(-_0w base 33)))),
    ("_0x base 33", None, || ubig!(_0x base 33), None),
    ("_10 base 33", Some("21"), || ubig!(_10 base 33), None),
    ("10 base 33", Some("21"), || ubig!(10 base 33), Some((|| ibig!(10 base 33), || ibig!(-10 base 33)))),
    ("_11 base 33", Some("22"), || ubig!(_11 base 33), None),
    ("11 base 33", Some("22"), || ubig!(11 base 33), None),
    ("_1g base 33", Some("31"), || ubig!(_1g base 33), Some((|| ibig!(_1g base 33), || ibig!(-_1g base 33)))),
    ("_1w base 33", Some("41"), || ubig!(_1w base 33), None),
    ("_1x base 33", None, || ubig!(_1x base 33), None),
    ("_g0 base 33", Some("210"), || ubig!(_g0 base 33), Some((|| ibig!(_g0 base 33), || ibig!(-_g0 base 33)))),
    ("g0 base 33", Some("210"), || ubig!(g0 base 33), None),
    ("_g1 base 33", Some("211"), || ubig!(_g1 base 33), None),
    ("g1 base 33", Some("211"), || ubig!(g1 base 33), Some((|| ibig!(g1 base 33), || ibig!(-g1 base 33)))),
    ("_gg base 33", Some("220"), || ubig!(_gg base 33), None),
    ("gg base 33", Some("220"), || ubig!(gg base 33), None),
    ("_gw base 33", Some("230"), || ubig!(_gw base 33), Some((|| ibig!(_gw base 33), || ibig!(-_gw base 33)))),
    ("gw base 33", Some("230"), || ubig!(gw base 33), None),
    ("_gx base 33", None, || ubig!(_gx base 33), None),
    ("gx base 33", None, || ubig!(gx base 33), Some((|| ibig!(gx base 33), || ibig!(-gx base 33)))),
    ("_w0 base 33", Some("420"), || ubig!(_w0 base 33), None),
    ("w0 base 33", Some("420"), || ubig!(w0 base 33), None),
    ("_w1 base 33", Some("421"), || ubig!(_w1 base 33), Some((|| ibig!(_w1 base 33), || ibig!(-_w1 base 33)))),
    ("w1 base 33", Some("421"), || ubig!(w1 base 33), None),
    ("_wg base 33", Some("430"), || ubig!(_wg base 33), None),
    ("wg base 33", Some("430"), || ubig!(wg base 33), Some((|| ibig!(wg base 33), || ibig!(-wg base 33)))),
    ("_ww base 33", Some("440"), || ubig!(_ww base 33), None),
    ("ww base 33", Some("440"), || ubig!(ww base 33), None),
    ("_wx base 33", None, || ubig!(_wx base 33), Some((|| ibig!(_wx base 33), || ibig!(-_wx base 33)))),
    ("wx base 33", None, || ubig!(wx base 33), None),
    ("_x0 base 33", None, || ubig!(_x0 base 33), None),
    ("x0 base 33", None, || ubig!(x0 base 33), Some((|| ibig!(x0 base 33), || ibig!(-x0 base 33)))),
    ("_x1 base 33", None, || ubig!(_x1 base 33), None),
    ("x1 base 33", None, || ubig!(x1 base 33), None),
    ("_xg base 33", None, || ubig!(_xg base 33), Some((|| ibig!(_xg base 33), || ibig!(-_xg base 33)))),
    ("xg base 33", None, || ubig!(xg base 33), None),
    ("_xw base 33", None, || ubig!(_xw base 33), None),
    ("xw base 33", None, || ubig!(xw base 33), Some((|| ibig!(xw base 33), || ibig!(-xw base 33)))),
    ("_xx base 33", None, || ubig!(_xx base 33), None),
    ("xx base 33", None, || ubig!(xx base 33), None),
    ("_3s base 33", Some("7f"), || ubig!(_3s base 33), Some((|| ibig!(_3s base 33), || ibig!(-_3s base 33)))),
    ("_3S base 33", Some("7f"), || ubig!(_3S base 33), None),
    ("_u2w base 33", Some("8000"), || ubig!(_u2w base 33), None),
    ("_U2W base 33", Some("8000"), || ubig!(_U2W base 33), Some((|| ibig!(_U2W base 33), || ibig!(-_U2W base 33)))),
    ("U2W base 33", Some("8000"), || ubig!(U2W base 33), None),
    ("_3lbu base 33", Some("20001"), || ubig!(_3lbu base 33), None),
    ("_3LBU base 33", Some("20001"), || ubig!(_3LBU base 33), Some((|| ibig!(_3LBU base 33), || ibig!(-_3LBU base 33)))),
    ("_6lg8ji7 base 33", Some("1ffffffff"), || ubig!(_6lg8ji7 base 33), None),
    ("_6LG8JI7 base 33", Some("1ffffffff"), || ubig!(_6LG8JI7 base 33), None),
    ("_624hl23b5p base 33", Some("1000000000000"), || ubig!(_624hl23b5p base 33), Some((|| ibig!(_624hl23b5p base 33), || ibig!(-_624hl23b5p base 33)))),
    ("_624HL23B5P base 33", Some("1000000000000"), || ubig!(_624HL23B5P base 33), None),
    ("_b1w8p7j5q9r6h base 33", Some("10000000000000001"), || ubig!(_b1w8p7j5q9r6h base 33), None),
    ("_B1W8P7J5Q9R6H base 33", Some("10000000000000001"), || ubig!(_B1W8P7J5Q9R6H base 33), Some((|| ibig!(_B1W8P7J5Q9R6H base 33), || ibig!(-_B1W8P7J5Q9R6H base 33)))),
    ("B1W8P7J5Q9R6H base 33", Some("10000000000000001"), || ubig!(B1W8P7J5Q9R6H base 33), None),
    ("_k5jbmgrnin9l4kh0 base 33", Some("ffffffffffffffffffff"), || ubig!(_k5jbmgrnin9l4kh0 base 33), None),
    ("_K5JBMGRNIN9L4KH0 base 33", Some("ffffffffffffffffffff"), || ubig!(_K5JBMGRNIN9L4KH0 base 33), Some((|| ibig!(_K5JBMGRNIN9L4KH0 base 33), || ibig!(-_K5JBMGRNIN9L4KH0 base 33)))),
    ("K5JBMGRNIN9L4KH0 base 33", Some("ffffffffffffffffffff"), || ubig!(K5JBMGRNIN9L4KH0 base 33), None),
    ("_13ppwdt02skakplsdm4v base 33", Some("1000000000000000000000000"), || ubig!(_13ppwdt02skakplsdm4v base 33), None),
    ("_13PPWDT02SKAKPLSDM4V base 33", Some("1000000000000000000000000"), || ubig!(_13PPWDT02SKAKPLSDM4V base 33), Some((|| ibig!(_13PPWDT02SKAKPLSDM4V base 33), || ibig!(-_13PPWDT02SKAKPLSDM4V base 33)))),
    ("_1s5acer890k5h07uh412q2mo0u base 33", Some("80000000000000000000000000000001"), || ubig!(_1s5acer890k5h07uh412q2mo0u base 33), None),
    ("_1S5ACER890K5H07UH412Q2MO0U base 33", Some("80000000000000000000000000000001"), || ubig!(_1S5ACER890K5H07UH412Q2MO0U base 33), None),
    ("_caqdc5qora7hrna54398ep4kuej55010 base 33", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_caqdc5qora7hrna54398ep4kuej55010 base 33), Some((|| ibig!(_caqdc5qora7hrna54398ep4kuej55010 base 33), || ibig!(-_caqdc5qora7hrna54398ep4kuej55010 base 33)))),
    ("_CAQDC5QORA7HRNA54398EP4KUEJ55010 base 33", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_CAQDC5QORA7HRNA54398EP4KUEJ55010 base 33), None),
    ("CAQDC5QORA7HRNA54398EP4KUEJ55010 base 33", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(CAQDC5QORA7HRNA54398EP4KUEJ55010 base 33), None),
    ("_6snbehms1mw1tuqgc65380rncl9eqka8ts0okat7i31tuobtdhw base 33", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_6snbehms1mw1tuqgc65380rncl9eqka8ts0okat7i31tuobtdhw base 33), Some((|| ibig!(_6snbehms1mw1tuqgc65380rncl9eqka8ts0okat7i31tuobtdhw base 33), || ibig!(-_6snbehms1mw1tuqgc65380rncl9eqka8ts0okat7i31tuobtdhw base 33)))),
    ("_6SNBEHMS1MW1TUQGC65380RNCL9EQKA8TS0OKAT7I31TUOBTDHW base 33", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_6SNBEHMS1MW1TUQGC65380RNCL9EQKA8TS0OKAT7I31TUOBTDHW base 33), None),
    ("_4jvoc2rj54eoww6h7c6pqb3a0wawnb7818a95htvjw2frstpi6r4ecom8qfka122 base 33", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_4jvoc2rj54eoww6h7c6pqb3a0wawnb7818a95htvjw2frstpi6r4ecom8qfka122 base 33), None),
    ("_4JVOC2RJ54EOWW6H7C6PQB3A0WAWNB7818A95HTVJW2FRSTPI6R4ECOM8QFKA122 base 33", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_4JVOC2RJ54EOWW6H7C6PQB3A0WAWNB7818A95HTVJW2FRSTPI6R4ECOM8QFKA122 base 33), Some((|| ibig!(_4JVOC2RJ54EOWW6H7C6PQB3A0WAWNB7818A95HTVJW2FRSTPI6R4ECOM8QFKA122 base 33), || ibig!(-_4JVOC2RJ54EOWW6H7C6PQB3A0WAWNB7818A95HTVJW2FRSTPI6R4ECOM8QFKA122 base 33)))),
    ("_4n429c3nhpbfri7m7kf7git5897gnvi6k6f9psktkhv3o base 33", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_4n429c3nhpbfri7m7kf7git5897gnvi6k6f9psktkhv3o base 33), None),
    ("_4N429C3NHPBFRI7M7KF7GIT5897GNVI6K6F9PSKTKHV3O base 33", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_4N429C3NHPBFRI7M7KF7GIT5897GNVI6K6F9PSKTKHV3O base 33), None),
    ("_1000000000000 base 33", Some("172588ad4f5f0981"), || ubig!(_1000000000000 base 33), Some((|| ibig!(_1000000000000 base 33), || ibig!(-_1000000000000 base 33)))),
    ("_wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww base 33", Some("36c9807a42790d3af11f6049d4edb7af972f13f78d613383500"), || ubig!(_wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww base 33), None),
    ("_WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW base 33", Some("36c9807a42790d3af11f6049d4edb7af972f13f78d613383500"), || ubig!(_WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW base 33), None),
    ("WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW base 33", Some("36c9807a42790d3af11f6049d4edb7af972f13f78d613383500"), || ubig!(WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW base 33), Some((|| ibig!(WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW base 33), || ibig!(-WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW base 33)))),
    ("_100000000000000000000000000000000000000000 base 33", Some("70ff98fc2919ab499150b698472a4ada27d1192e93987a3ed521"), || ubig!(_100000000000000000000000000000000000000000 base 33), None),
    ("_1_0 base 33", None, || ubig!(_1_0 base 33), None),
    ("__1 base 33", None, || ubig!(__1 base 33), Some((|| ibig!(__1 base 33), || ibig!(-__1 base 33)))),
    ("1_0 base 33", None, || ubig!(1_0 base 33), None),
    ("_0 base 34", Some("0"), || ubig!(_0 base 34), None),
    ("0 base 34", Some("0"), || ubig!(0 base 34), Some((|| ibig!(0 base 34), || ibig!(-0 base 34)))),
    ("_1 base 34", Some("1"), || ubig!(_1 base 34), None),
    ("1 base 34", Some("1"), || ubig!(1 base 34), None),
    ("_h base 34", Some("11"), || ubig!(_h base 34), Some((|| ibig!(_h base 34), || ibig!(-_h base 34)))),
    ("h base 34", Some("11"), || ubig!(h base 34), None),
    ("_x base 34", Some("21"), || ubig!(_x base 34), None),
    ("x base 34", Some("21"), || ubig!(x base 34), Some((|| ibig!(x base 34), || ibig!(-x base 34)))),
    ("_y base 34", None, || ubig!(_y base 34), None),
    ("y base 34", None, || ubig!(y base 34), None),
    ("_00 base 34", Some("0"), || ubig!(_00 base 34), Some((|| ibig!(_00 base 34), || ibig!(-_00 base 34)))),
    ("00 base 34", Some("0"), || ubig!(00 base 34), None),
    ("_01 base 34", Some("1"), || ubig!(_01 base 34), None),
    ("01 base 34", Some("1"), || ubig!(01 base 34), Some((|| ibig!(01 base 34), || ibig!(-01 base 34)))),
    ("_0h base 34", Some("11"), || ubig!(_0h base 34), None),
    ("_0x base 34", Some("21"), || ubig!(_0x base 34), None),
    ("_0y base 34", None, || ubig!(_0y base 34), Some((|| ibig!(_0y base 34), || ibig!(-_0y base 34)))),
    ("_10 base 34", Some("22"), || ubig!(_10 base 34), None),
    ("10 base 34", Some("22"), || ubig!(10 base 34), None),
    ("_11 base 34", Some("23"), || ubig!(_11 base 34), Some((|| ibig!(_11 base 34), || ibig!(-_11 base 34)))),
    ("11 base 34", Some("23"), || ubig!(11 base 34), None),
    ("_1h base 34", Some("33"), || ubig!(_1h base 34), None),
    ("_1x base 34", Some("43"), || ubig!(_1x base 34), Some((|| ibig!(_1x base 34), || ibig!(-_1x base 34)))),
    ("_1y base 34", None, || ubig!(_1y base 34), None),
    ("_h0 base 34", Some("242"), || ubig!(_h0 base 34), None),
    ("h0 base 34", Some("242"), || ubig!(h0 base 34), Some((|| ibig!(h0 base 34), || ibig!(-h0 base 34)))),
    ("_h1 base 34", Some("243"), || ubig!(_h1 base 34), None),
    ("h1 base 34", Some("243"), || ubig!(h1 base 34), None),
    ("_hh base 34", Some("253"), || ubig!(_hh base 34), Some((|| ibig!(_hh base 34), || ibig!(-_hh base 34)))),
    ("hh base 34", Some("253"), || ubig!(hh base 34), None),
    ("_hx base 34", Some("263"), || ubig!(_hx base 34), None),
    ("hx base 34", Some("263"), || ubig!(hx base 34), Some((|| ibig!(hx base 34), || ibig!(-hx base 34)))),
    ("_hy base 34", None, || ubig!(_hy base 34), None),
    ("hy base 34", None, || ubig!(hy base 34), None),
    ("_x0 base 34", Some("462"), || ubig!(_x0 base 34), Some((|| ibig!(_x0 base 34), || ibig!(-_x0 base 34)))),
    ("x0 base 34", Some("462"), || ubig!(x0 base 34), None),
    ("_x1 base 34", Some("463"), || ubig!(_x1 base 34), None),
    ("x1 base 34", Some("463"), || ubig!(x1 base 34), Some((|| ibig!(x1 base 34), || ibig!(-x1 base 34)))),
    ("_xh base 34", Some("473"), || ubig!(_xh base 34), None),
    ("xh base 34", Some("473"), || ubig!(xh base 34), None),
    ("_xx base 34", Some("483"), || ubig!(_xx base 34), Some((|| ibig!(_xx base 34), || ibig!(-_xx base 34)))),
    ("xx base 34", Some("483"), || ubig!(xx base 34), None),
    ("_xy base 34", None, || ubig!(_xy base 34), None),
    ("xy base 34", None, || ubig!(xy base 34), Some((|| ibig!(xy base 34), || ibig!(-xy base 34)))),
    ("_y0 base 34", None, || ubig!(_y0 base 34), None),
    ("y0 base 34", None, || ubig!(y0 base 34), None),
    ("_y1 base 34", None, || ubig!(_y1 base 34), Some((|| ibig!(_y1 base 34), || ibig!(-_y1 base 34)))),
    ("y1 base 34", None, || ubig!(y1 base 34), None),
    ("_yh base 34", None, || ubig!(_yh base 34), None),
    ("yh base 34", None, || ubig!(yh base 34), Some((|| ibig!(yh base 34), || ibig!(-yh base 34)))),
    ("_yx base 34", None, || ubig!(_yx base 34), None),
    ("yx base 34", None, || ubig!(yx base 34), None),
    ("_yy base 34", None, || ubig!(_yy base 34), Some((|| ibig!(_yy base 34), || ibig!(-_yy base 34)))),
    ("yy base 34", None, || ubig!(yy base 34), None),
    ("_3p base 34", Some("7f"), || ubig!(_3p base 34), None),
    ("_3P base 34", Some("7f"), || ubig!(_3P base 34), Some((|| ibig!(_3P base 34), || ibig!(-_3P base 34)))),
    ("_sbq base 34", Some("8000"), || ubig!(_sbq base 34), None),
    ("_SBQ base 34", Some("8000"), || ubig!(_SBQ base 34), None),
    ("SBQ base 34", Some("8000"), || ubig!(SBQ base 34), Some((|| ibig!(SBQ base 34), || ibig!(-SBQ base 34)))),
    ("_3bd3 base 34", Some("20001"), || ubig!(_3bd3 base 34), None),
    ("_3BD3 base 34", Some("20001"), || ubig!(_3BD3 base 34), None),
];
pub static PART32: &[Row] = &[
    ("_5j1x591 base 34", Some("1ffffffff"), || ubig!(_5j1x591 base 34), Some((|| ibig!(_5j1x591 base 34), || ibig!(-_5j1x591 base 34)))),
    ("_5J1X591 base 34", Some("1ffffffff"), || ubig!(_5J1X591 base 34), None),
    ("_4ll1hjhkji base 34", Some("1000000000000"), || ubig!(_4ll1hjhkji base 34), None),
    ("_4LL1HJHKJI base 34", Some("1000000000000"), || ubig!(_4LL1HJHKJI base 34), Some((|| ibig!(_4LL1HJHKJI base 34), || ibig!(-_4LL1HJHKJI base 34)))),
    ("_7orp63sh4dphj base 34", Some("10000000000000001"), || ubig!(_7orp63sh4dphj base 34), None),
    ("_7ORP63SH4DPHJ base 34", Some("10000000000000001"), || ubig!(_7ORP63SH4DPHJ base 34), None),
    ("_cu7jcqqqhvnme0fh base 34", Some("ffffffffffffffffffff"), || ubig!(_cu7jcqqqhvnme0fh base 34), Some((|| ibig!(_cu7jcqqqhvnme0fh base 34), || ibig!(-_cu7jcqqqhvnme0fh base 34)))),
    ("_CU7JCQQQHVNME0FH base 34", Some("ffffffffffffffffffff"), || ubig!(_CU7JCQQQHVNME0FH base 34), None),
    ("CU7JCQQQHVNME0FH base 34", Some("ffffffffffffffffffff"), || ubig!(CU7JCQQQHVNME0FH base 34), None),
    ("_lgnp160xxmcunq3addi base 34", Some("1000000000000000000000000"), || ubig!(_lgnp160xxmcunq3addi base 34), Some((|| ibig!(_lgnp160xxmcunq3addi base 34), || ibig!(-_lgnp160xxmcunq3addi base 34)))),
    ("_LGNP160XXMCUNQ3ADDI base 34", Some("1000000000000000000000000"), || ubig!(_LGNP160XXMCUNQ3ADDI base 34), None),
    ("LGNP160XXMCUNQ3ADDI base 34", Some("1000000000000000000000000"), || ubig!(LGNP160XXMCUNQ3ADDI base 34), None),
    ("_ttq3btpo06a5neskugckddplr base 34", Some("80000000000000000000000000000001"), || ubig!(_ttq3btpo06a5neskugckddplr base 34), Some((|| ibig!(_ttq3btpo06a5neskugckddplr base 34), || ibig!(-_ttq3btpo06a5neskugckddplr base 34)))),
    ("_TTQ3BTPO06A5NESKUGCKDDPLR base 34", Some("80000000000000000000000000000001"), || ubig!(_TTQ3BTPO06A5NESKUGCKDDPLR base 34), None),
    ("TTQ3BTPO06A5NESKUGCKDDPLR base 34", Some("80000000000000000000000000000001"), || ubig!(TTQ3BTPO06A5NESKUGCKDDPLR base 34), None),
    ("_4u472uqgf8dmwvnu4winlb1l86s3135h base 34", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_4u472uqgf8dmwvnu4winlb1l86s3135h base 34), Some((|| ibig!(_4u472uqgf8dmwvnu4winlb1l86s3135h base 34), || ibig!(-_4u472uqgf8dmwvnu4winlb1l86s3135h base 34)))),
    ("_4U472UQGF8DMWVNU4WINLB1L86S3135H base 34", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_4U472UQGF8DMWVNU4WINLB1L86S3135H base 34), None),
    ("_1ih35m0a71wmjbnx1ngif8i7chuuea22iq5dr824lhtc8rokbdq base 34", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_1ih35m0a71wmjbnx1ngif8i7chuuea22iq5dr824lhtc8rokbdq base 34), None),
    ("_1IH35M0A71WMJBNX1NGIF8I7CHUUEA22IQ5DR824LHTC8ROKBDQ base 34", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_1IH35M0A71WMJBNX1NGIF8I7CHUUEA22IQ5DR824LHTC8ROKBDQ base 34), Some((|| ibig!(_1IH35M0A71WMJBNX1NGIF8I7CHUUEA22IQ5DR824LHTC8ROKBDQ base 34), || ibig!(-_1IH35M0A71WMJBNX1NGIF8I7CHUUEA22IQ5DR824LHTC8ROKBDQ base 34)))),
    ("_ntn3o2o1q3d2dugh3maa14v3hx0br5q6nb81ic4wd0qcqh4xd9lcmq0s1rr22jj base 34", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_ntn3o2o1q3d2dugh3maa14v3hx0br5q6nb81ic4wd0qcqh4xd9lcmq0s1rr22jj base 34), None),
    ("_NTN3O2O1Q3D2DUGH3MAA14V3HX0BR5Q6NB81IC4WD0QCQH4XD9LCMQ0S1RR22JJ base 34", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_NTN3O2O1Q3D2DUGH3MAA14V3HX0BR5Q6NB81IC4WD0QCQH4XD9LCMQ0S1RR22JJ base 34), None),
    ("NTN3O2O1Q3D2DUGH3MAA14V3HX0BR5Q6NB81IC4WD0QCQH4XD9LCMQ0S1RR22JJ base 34", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(NTN3O2O1Q3D2DUGH3MAA14V3HX0BR5Q6NB81IC4WD0QCQH4XD9LCMQ0S1RR22JJ base 34), Some((|| ibig!(NTN3O2O1Q3D2DUGH3MAA14V3HX0BR5Q6NB81IC4WD0QCQH4XD9LCMQ0S1RR22JJ base 34), || ibig!(-NTN3O2O1Q3D2DUGH3MAA14V3HX0BR5Q6NB81IC4WD0QCQH4XD9LCMQ0S1RR22JJ base 34)))),
    ("_18x1bmtab0fh6wkck919ebgee875k8nevbu7vf8v4cmcg base 34", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_18x1bmtab0fh6wkck919ebgee875k8nevbu7vf8v4cmcg base 34), None),
    ("_18X1BMTAB0FH6WKCK919EBGEE875K8NEVBU7VF8V4CMCG base 34", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_18X1BMTAB0FH6WKCK919EBGEE875K8NEVBU7VF8V4CMCG base 34), None),
    ("_1000000000000 base 34", Some("211e44f7d02c1000"), || ubig!(_1000000000000 base 34), Some((|| ibig!(_1000000000000 base 34), || ibig!(-_1000000000000 base 34)))),
    ("_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx base 34", Some("b4d53b3d31bc27dc17271513120c0f5c738ea8e80ffffffffff"), || ubig!(_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx base 34), None),
    ("_XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX base 34", Some("b4d53b3d31bc27dc17271513120c0f5c738ea8e80ffffffffff"), || ubig!(_XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX base 34), None),
    ("XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX base 34", Some("b4d53b3d31bc27dc17271513120c0f5c738ea8e80ffffffffff"), || ubig!(XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX base 34), Some((|| ibig!(XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX base 34), || ibig!(-XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX base 34)))),
    ("_100000000000000000000000000000000000000000 base 34", Some("180451de209afd4b3b1330cc88659a0a4758f26ed220000000000"), || ubig!(_100000000000000000000000000000000000000000 base 34), None),
    ("_1_0 base 34", None, || ubig!(_1_0 base 34), None),
    ("__1 base 34", None, || ubig!(__1 base 34), Some((|| ibig!(__1 base 34), || ibig!(-__1 base 34)))),
    ("1_0 base 34", None, || ubig!(1_0 base 34), None),
    ("_0 base 35", Some("0"), || ubig!(_0 base 35), None),
    ("0 base 35", Some("0"), || ubig!(0 base 35), Some((|| ibig!(0 base 35), || ibig!(-0 base 35)))),
    ("_1 base 35", Some("1"), || ubig!(_1 base 35), None),
    ("1 base 35", Some("1"), || ubig!(1 base 35), None),
    ("_h base 35", Some("11"), || ubig!(_h base 35), Some((|| ibig!(_h base 35), || ibig!(-_h base 35)))),
    ("h base 35", Some("11"), || ubig!(h base 35), None),
    ("_y base 35", Some("22"), || ubig!(_y base 35), None),
    ("y base 35", Some("22"), || ubig!(y base 35), Some((|| ibig!(y base 35), || ibig!(-y base 35)))),
    ("_z base 35", None, || ubig!(_z base 35), None),
    ("z base 35", None, || ubig!(z base 35), None),
    ("_00 base 35", Some("0"), || ubig!(_00 base 35), Some((|| ibig!(_00 base 35), || ibig!(-_00 base 35)))),
    ("00 base 35", Some("0"), || ubig!(00 base 35), None),
    ("_01 base 35", Some("1"), || ubig!(_01 base 35), None),
    ("01 base 35", Some("1"), || ubig!(01 base 35), Some((|| ibig!(01 base 35), || ibig!(-01 base 35)))),
    ("_0h base 35", Some("11"), || ubig!(_0h base 35), None),
    ("_0y base 35", Some("22"), || ubig!(_0y base 35), None),
    ("_0z base 35", None, || ubig!(_0z base 35), Some((|| ibig!(_0z base 35), || ibig!(-_0z base 35)))),
    ("_10 base 35", Some("23"), || ubig!(_10 base 35), None),
    ("10 base 35", Some("23"), || ubig!(10 base 35), None),
    ("_11 base 35", Some("24"), || ubig!(_11 base 35), Some((|| ibig!(_11 base 35), || ibig!(-_11 base 35)))),
    ("11 base 35", Some("24"), || ubig!(11 base 35), None),
    ("_1h base 35", Some("34"), || ubig!(_1h base 35), None),
    ("_1y base 35", Some("45"), || ubig!(_1y base 35), Some((|| ibig!(_1y base 35), || ibig!(-_1y base 35)))),
    ("_1z base 35", None, || ubig!(_1z base 35), None),
    ("_h0 base 35", Some("253"), || ubig!(_h0 base 35), None),
    ("h0 base 35", Some("253"), || ubig!(h0 base 35), Some((|| ibig!(h0 base 35), || ibig!(-h0 base 35)))),
    ("_h1 base 35", Some("254"), || ubig!(_h1 base 35), None),
    ("h1 base 35", Some("254"), || ubig!(h1 base 35), None),
    ("_hh base 35", Some("264"), || ubig!(_hh base 35), Some((|| ibig!(_hh base 35), || ibig!(-_hh base 35)))),
    ("hh base 35", Some("264"), || ubig!(hh base 35), None),
    ("_hy base 35", Some("275"), || ubig!(_hy base 35), None),
    ("hy base 35", Some("275"), || ubig!(hy base 35), Some((|| ibig!(hy base 35), || ibig!(-hy base 35)))),
    ("_hz base 35", None, || ubig!(_hz base 35), None),
    ("hz base 35", None, || ubig!(hz base 35), None),
    ("_y0 base 35", Some("4a6"), || ubig!(_y0 base 35), Some((|| ibig!(_y0 base 35), || ibig!(-_y0 base 35)))),
    ("y0 base 35", Some("4a6"), || ubig!(y0 base 35), None),
    ("_y1 base 35", Some("4a7"), || ubig!(_y1 base 35), None),
    ("y1 base 35", Some("4a7"), || ubig!(y1 base 35), Some((|| ibig!(y1 base 35), || ibig!(-y1 base 35)))),
    ("_yh base 35", Some("4b7"), || ubig!(_yh base 35), None),
    ("yh base 35", Some("4b7"), || ubig!(yh base 35), None),
    ("_yy base 35", Some("4c8"), || ubig!(_yy base 35), Some((|| ibig!(_yy base 35), || ibig!(-_yy base 35)))),
    ("yy base 35", Some("4c8"), || ubig!(yy base 35), None),
    ("_yz base 35", None, || ubig!(_yz base 35), None),
    ("yz base 35", None, || ubig!(yz base 35), Some((|| ibig!(yz base 35), || ibig!(-yz base 35)))),
    ("_z0 base 35", None, || ubig!(_z0 base 35), None),
    ("z0 base 35", None, || ubig!(z0 base 35), None),
    ("_z1 base 35", None, || ubig!(_z1 base 35), Some((|| ibig!(_z1 base 35), || ibig!(-_z1 base 35)))),
    ("z1 base 35", None, || ubig!(z1 base 35), None),
    ("_zh base 35", None, || ubig!(_zh base 35), None),
    ("zh base 35", None, || ubig!(zh base 35), Some((|| ibig!(zh base 35), || ibig!(-zh base 35)))),
    ("_zy base 35", None, || ubig!(_zy base 35), None),
    ("zy base 35", None, || ubig!(zy base 35), None),
    ("_zz base 35", None, || ubig!(_zz base 35), Some((|| ibig!(_zz base 35), || ibig!(-_zz base 35)))),
    ("zz base 35", None, || ubig!(zz base 35), None),
    ("_3m base 35", Some("7f"), || ubig!(_3m base 35), None),
    ("_3M base 35", Some("7f"), || ubig!(_3M base 35), Some((|| ibig!(_3M base 35), || ibig!(-_3M base 35)))),
    ("_qq8 base 35", Some("8000"), || ubig!(_qq8 base 35), None),
    ("_QQ8 base 35", Some("8000"), || ubig!(_QQ8 base 35), None),
    ("QQ8 base 35", Some("8000"), || ubig!(QQ8 base 35), Some((|| ibig!(QQ8 base 35), || ibig!(-QQ8 base 35)))),
    ("_31yx base 35", Some("20001"), || ubig!(_31yx base 35), None),
    ("_31YX base 35", Some("20001"), || ubig!(_31YX base 35), None),
    ("_4nj8bhl base 35", Some("1ffffffff"), || ubig!(_4nj8bhl base 35), Some((|| ibig!(_4nj8bhl base 35), || ibig!(-_4nj8bhl base 35)))),
    ("_4NJ8BHL base 35", Some("1ffffffff"), || ubig!(_4NJ8BHL base 35), None),
    ("_3jytu4j2d1 base 35", Some("1000000000000"), || ubig!(_3jytu4j2d1 base 35), None),
    ("_3JYTU4J2D1 base 35", Some("1000000000000"), || ubig!(_3JYTU4J2D1 base 35), Some((|| ibig!(_3JYTU4J2D1 base 35), || ibig!(-_3JYTU4J2D1 base 35)))),
    ("_5g24a25twkwfh base 35", Some("10000000000000001"), || ubig!(_5g24a25twkwfh base 35), None),
    ("_5G24A25TWKWFH base 35", Some("10000000000000001"), || ubig!(_5G24A25TWKWFH base 35), None),
    ("_8c1hua4i5k76pjta base 35", Some("ffffffffffffffffffff"), || ubig!(_8c1hua4i5k76pjta base 35), Some((|| ibig!(_8c1hua4i5k76pjta base 35), || ibig!(-_8c1hua4i5k76pjta base 35)))),
    ("_8C1HUA4I5K76PJTA base 35", Some("ffffffffffffffffffff"), || ubig!(_8C1HUA4I5K76PJTA base 35), None),
    ("_cqdxa87lbbl8w9ioxq1 base 35", Some("1000000000000000000000000"), || ubig!(_cqdxa87lbbl8w9ioxq1 base 35), None),
    ("_CQDXA87LBBL8W9IOXQ1 base 35", Some("1000000000000000000000000"), || ubig!(_CQDXA87LBBL8W9IOXQ1 base 35), Some((|| ibig!(_CQDXA87LBBL8W9IOXQ1 base 35), || ibig!(-_CQDXA87LBBL8W9IOXQ1 base 35)))),
    ("CQDXA87LBBL8W9IOXQ1 base 35", Some("1000000000000000000000000"), || ubig!(CQDXA87LBBL8W9IOXQ1 base 35), None),
    ("_evh2xn5qudpcldl13shtyuixo base 35", Some("80000000000000000000000000000001"), || ubig!(_evh2xn5qudpcldl13shtyuixo base 35), None),
    ("_EVH2XN5QUDPCLDL13SHTYUIXO base 35", Some("80000000000000000000000000000001"), || ubig!(_EVH2XN5QUDPCLDL13SHTYUIXO base 35), Some((|| ibig!(_EVH2XN5QUDPCLDL13SHTYUIXO base 35), || ibig!(-_EVH2XN5QUDPCLDL13SHTYUIXO base 35)))),
    ("EVH2XN5QUDPCLDL13SHTYUIXO base 35", Some("80000000000000000000000000000001"), || ubig!(EVH2XN5QUDPCLDL13SHTYUIXO base 35), None),
    ("_1ylt75nu5awrau7k4gqqlu9uur3v8hbf base 35", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_1ylt75nu5awrau7k4gqqlu9uur3v8hbf base 35), None),
    ("_1YLT75NU5AWRAU7K4GQQLU9UUR3V8HBF base 35", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_1YLT75NU5AWRAU7K4GQQLU9UUR3V8HBF base 35), Some((|| ibig!(_1YLT75NU5AWRAU7K4GQQLU9UUR3V8HBF base 35), || ibig!(-_1YLT75NU5AWRAU7K4GQQLU9UUR3V8HBF base 35)))),
    ("_cnyyq136y2ds6g0lguip9t5f0qm9s4hqe4kfpcwfq517lax1l8 base 35", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_cnyyq136y2ds6g0lguip9t5f0qm9s4hqe4kfpcwfq517lax1l8 base 35), None),
    ("_CNYYQ136Y2DS6G0LGUIP9T5F0QM9S4HQE4KFPCWFQ517LAX1L8 base 35", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_CNYYQ136Y2DS6G0LGUIP9T5F0QM9S4HQE4KFPCWFQ517LAX1L8 base 35), None),
    ("CNYYQ136Y2DS6G0LGUIP9T5F0QM9S4HQE4KFPCWFQ517LAX1L8 base 35", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(CNYYQ136Y2DS6G0LGUIP9T5F0QM9S4HQE4KFPCWFQ517LAX1L8 base 35), Some((|| ibig!(CNYYQ136Y2DS6G0LGUIP9T5F0QM9S4HQE4KFPCWFQ517LAX1L8 base 35), || ibig!(-CNYYQ136Y2DS6G0LGUIP9T5F0QM9S4HQE4KFPCWFQ517LAX1L8 base 35)))),
    ("_3xhgqycsdxwi56lwaud0kb8pntubrcjj9e61fjbedbd71d04nxsv7t56e75ja9c base 35", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_3xhgqycsdxwi56lwaud0kb8pntubrcjj9e61fjbedbd71d04nxsv7t56e75ja9c base 35), None),
    ("_3XHGQYCSDXWI56LWAUD0KB8PNTUBRCJJ9E61FJBEDBD71D04NXSV7T56E75JA9C base 35", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_3XHGQYCSDXWI56LWAUD0KB8PNTUBRCJJ9E61FJBEDBD71D04NXSV7T56E75JA9C base 35), None),
    ("_ccf55ns892hbss4squa0jb1dawrmbxmx270f0m9uhlsa base 35", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_ccf55ns892hbss4squa0jb1dawrmbxmx270f0m9uhlsa base 35), Some((|| ibig!(_ccf55ns892hbss4squa0jb1dawrmbxmx270f0m9uhlsa base 35), || ibig!(-_ccf55ns892hbss4squa0jb1dawrmbxmx270f0m9uhlsa base 35)))),
    ("_CCF55NS892HBSS4SQUA0JB1DAWRMBXMX270F0M9UHLSA base 35", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_CCF55NS892HBSS4SQUA0JB1DAWRMBXMX270F0M9UHLSA base 35), None),
    ("CCF55NS892HBSS4SQUA0JB1DAWRMBXMX270F0M9UHLSA base 35", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(CCF55NS892HBSS4SQUA0JB1DAWRMBXMX270F0M9UHLSA base 35), None),
    ("_1000000000000 base 35", Some("2ee56725f06e5c71"), || ubig!(_1000000000000 base 35), Some((|| ibig!(_1000000000000 base 35), || ibig!(-_1000000000000 base 35)))),
    ("_yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy base 35", Some("2408eb82449f366950dfe3514c82084c7330b913504389a8cf20"), || ubig!(_yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy base 35), None),
    ("_YYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYY base 35", Some("2408eb82449f366950dfe3514c82084c7330b913504389a8cf20"), || ubig!(_YYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYY base 35), None),
    ("YYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYY base 35", Some("2408eb82449f366950dfe3514c82084c7330b913504389a8cf20"), || ubig!(YYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYY base 35), Some((|| ibig!(YYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYY base 35), || ibig!(-YYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYY base 35)))),
    ("_100000000000000000000000000000000000000000 base 35", Some("4ed3832cf61c470660e9c141d75c72273bfa94da3f93bd2145183"), || ubig!(_100000000000000000000000000000000000000000 base 35), None),
    ("_1_0 base 35", None, || ubig!(_1_0 base 35), None),
    ("__1 base 35", None, || ubig!(__1 base 35), Some((|| ibig!(__1 base 35), || ibig!(-__1 base 35)))),
    ("1_0 base 35", None, || ubig!(1_0 base 35), None),
    ("_0 base 36", Some("0"), || ubig!(_0 base 36), None),
    ("0 base 36", Some("0"), || ubig!(0 base 36), Some((|| ibig!(0 base 36), || ibig!(-0 base 36)))),
    ("_1 base 36", Some("1"), || ubig!(_1 base 36), None),
    ("1 base 36", Some("1"), || ubig!(1 base 36), None),
    ("_i base 36", Some("12"), || ubig!(_i base 36), Some((|| ibig!(_i base 36), || ibig!(-_i base 36)))),
    ("i base 36", Some("12"), || ubig!(i base 36), None),
    ("_z base 36", Some("23"), || ubig!(_z base 36), None),
    ("z base 36", Some("23"), || ubig!(z base 36), Some((|| ibig!(z base 36), || ibig!(-z base 36)))),
    ("_00 base 36", Some("0"), || ubig!(_00 base 36), None),
    ("00 base 36", Some("0"), || ubig!(00 base 36), None),
    ("_01 base 36", Some("1"), || ubig!(_01 base 36), Some((|| ibig!(_01 base 36), || ibig!(-_01 base 36)))),
    ("01 base 36", Some("1"), || ubig!(01 base 36), None),
    ("_0i base 36", Some("12"), || ubig!(_0i base 36), None),
    ("_0z base 36", Some("23"), || ubig!(_0z base 36), Some((|| ibig!(_0z base 36), || ibig!(-_0z base 36)))),
    ("_10 base 36", Some("24"), || ubig!(_10 base 36), None),
    ("10 base 36", Some("24"), || ubig!(10 base 36), None),
    ("_11 base 36", Some("25"), || ubig!(_11 base 36), Some((|| ibig!(_11 base 36), || ibig!(-_11 base 36)))),
    ("11 base 36", Some("25"), || ubig!(11 base 36), None),
    ("_1i base 36", Some("36"), || ubig!(_1i base 36), None),
    ("_1z base 36", Some("47"), || ubig!(_1z base 36), Some((|| ibig!(_1z base 36), || ibig!(-_1z base 36)))),
    ("_i0 base 36", Some("288"), || ubig!(_i0 base 36), None),
    ("i0 base 36", Some("288"), || ubig!(i0 base 36), None),
    ("_i1 base 36", Some("289"), || ubig!(_i1 base 36), Some((|| ibig!(_i1 base 36), || ibig!(-_i1 base 36)))),
    ("i1 base 36", Some("289"), || ubig!(i1 base 36), None),
    ("_ii base 36", Some("29a"), || ubig!(_ii base 36), None),
];
pub static PART33: &[Row] = &[
    ("ii base 36", Some("29a"), || ubig!(ii base 36), Some((|| ibig!(ii base 36), || ibig!(-ii base 36)))),
    ("_iz base 36", Some("2ab"), || ubig!(_iz base 36), None),
    ("iz base 36", Some("2ab"), || ubig!(iz base 36), None),
    ("_z0 base 36", Some("4ec"), || ubig!(_z0 base 36), Some((|| ibig!(_z0 base 36), || ibig!(-_z0 base 36)))),
    ("z0 base 36", Some("4ec"), || ubig!(z0 base 36), None),
    ("_z1 base 36", Some("4ed"), || ubig!(_z1 base 36), None),
    ("z1 base 36", Some("4ed"), || ubig!(z1 base 36), Some((|| ibig!(z1 base 36), || ibig!(-z1 base 36)))),
    ("_zi base 36", Some("4fe"), || ubig!(_zi base 36), None),
    ("zi base 36", Some("4fe"), || ubig!(zi base 36), None),
    ("_zz base 36", Some("50f"), || ubig!(_zz base 36), Some((|| ibig!(_zz base 36), || ibig!(-_zz base 36)))),
    ("zz base 36", Some("50f"), || ubig!(zz base 36), None),
    ("_000 base 36", Some("0"), || ubig!(_000 base 36), None),
    ("000 base 36", Some("0"), || ubig!(000 base 36), Some((|| ibig!(000 base 36), || ibig!(-000 base 36)))),
    ("_001 base 36", Some("1"), || ubig!(_001 base 36), None),
    ("001 base 36", Some("1"), || ubig!(001 base 36), None),
    ("_00i base 36", Some("12"), || ubig!(_00i base 36), Some((|| ibig!(_00i base 36), || ibig!(-_00i base 36)))),
    ("_00z base 36", Some("23"), || ubig!(_00z base 36), None),
    ("_010 base 36", Some("24"), || ubig!(_010 base 36), None),
    ("010 base 36", Some("24"), || ubig!(010 base 36), Some((|| ibig!(010 base 36), || ibig!(-010 base 36)))),
    ("_011 base 36", Some("25"), || ubig!(_011 base 36), None),
    ("011 base 36", Some("25"), || ubig!(011 base 36), None),
    ("_01i base 36", Some("36"), || ubig!(_01i base 36), Some((|| ibig!(_01i base 36), || ibig!(-_01i base 36)))),
    ("_01z base 36", Some("47"), || ubig!(_01z base 36), None),
    ("_0i0 base 36", Some("288"), || ubig!(_0i0 base 36), None),
    ("_0i1 base 36", Some("289"), || ubig!(_0i1 base 36), Some((|| ibig!(_0i1 base 36), || ibig!(-_0i1 base 36)))),
    ("_0ii base 36", Some("29a"), || ubig!(_0ii base 36), None),
    ("_0iz base 36", Some("2ab"), || ubig!(_0iz base 36), None),
    ("_0z0 base 36", Some("4ec"), || ubig!(_0z0 base 36), Some((|| ibig!(_0z0 base 36), || ibig!(-_0z0 base 36)))),
    ("_0z1 base 36", Some("4ed"), || ubig!(_0z1 base 36), None),
    ("_0zi base 36", Some("4fe"), || ubig!(_0zi base 36), None),
    ("_0zz base 36", Some("50f"), || ubig!(_0zz base 36), Some((|| ibig!(_0zz base 36), || ibig!(-_0zz base 36)))),
    ("_100 base 36", Some("510"), || ubig!(_100 base 36), None),
    ("100 base 36", Some("510"), || ubig!(100 base 36), None),
    ("_101 base 36", Some("511"), || ubig!(_101 base 36), Some((|| ibig!(_101 base 36), || ibig!(-_101 base 36)))),
    ("101 base 36", Some("511"), || ubig!(101 base 36), None),
    ("_10i base 36", Some("522"), || ubig!(_10i base 36), None),
    ("_10z base 36", Some("533"), || ubig!(_10z base 36), Some((|| ibig!(_10z base 36), || ibig!(-_10z base 36)))),
    ("_110 base 36", Some("534"), || ubig!(_110 base 36), None),
    ("110 base 36", Some("534"), || ubig!(110 base 36), None),
    ("_111 base 36", Some("535"), || ubig!(_111 base 36), Some((|| ibig!(_111 base 36), || ibig!(-_111 base 36)))),
    ("111 base 36", Some("535"), || ubig!(111 base 36), None),
    ("_11i base 36", Some("546"), || ubig!(_11i base 36), None),
    ("_11z base 36", Some("557"), || ubig!(_11z base 36), Some((|| ibig!(_11z base 36), || ibig!(-_11z base 36)))),
    ("_1i0 base 36", Some("798"), || ubig!(_1i0 base 36), None),
    ("_1i1 base 36", Some("799"), || ubig!(_1i1 base 36), None),
    ("_1ii base 36", Some("7aa"), || ubig!(_1ii base 36), Some((|| ibig!(_1ii base 36), || ibig!(-_1ii base 36)))),
    ("_1iz base 36", Some("7bb"), || ubig!(_1iz base 36), None),
    ("_1z0 base 36", Some("9fc"), || ubig!(_1z0 base 36), None),
    ("_1z1 base 36", Some("9fd"), || ubig!(_1z1 base 36), Some((|| ibig!(_1z1 base 36), || ibig!(-_1z1 base 36)))),
    ("_1zi base 36", Some("a0e"), || ubig!(_1zi base 36), None),
    ("_1zz base 36", Some("a1f"), || ubig!(_1zz base 36), None),
    ("_i00 base 36", Some("5b20"), || ubig!(_i00 base 36), Some((|| ibig!(_i00 base 36), || ibig!(-_i00 base 36)))),
    ("i00 base 36", Some("5b20"), || ubig!(i00 base 36), None),
    ("_i01 base 36", Some("5b21"), || ubig!(_i01 base 36), None),
    ("i01 base 36", Some("5b21"), || ubig!(i01 base 36), Some((|| ibig!(i01 base 36), || ibig!(-i01 base 36)))),
    ("_i0i base 36", Some("5b32"), || ubig!(_i0i base 36), None),
    ("i0i base 36", Some("5b32"), || ubig!(i0i base 36), None),
    ("_i0z base 36", Some("5b43"), || ubig!(_i0z base 36), Some((|| ibig!(_i0z base 36), || ibig!(-_i0z base 36)))),
    ("i0z base 36", Some("5b43"), || ubig!(i0z base 36), None),
    ("_i10 base 36", Some("5b44"), || ubig!(_i10 base 36), None),
    ("i10 base 36", Some("5b44"), || ubig!(i10 base 36), Some((|| ibig!(i10 base 36), || ibig!(-i10 base 36)))),
    ("_i11 base 36", Some("5b45"), || ubig!(_i11 base 36), None),
    ("i11 base 36", Some("5b45"), || ubig!(i11 base 36), None),
    ("_i1i base 36", Some("5b56"), || ubig!(_i1i base 36), Some((|| ibig!(_i1i base 36), || ibig!(-_i1i base 36)))),
    ("i1i base 36", Some("5b56"), || ubig!(i1i base 36), None),
    ("_i1z base 36", Some("5b67"), || ubig!(_i1z base 36), None),
    ("i1z base 36", Some("5b67"), || ubig!(i1z base 36), Some((|| ibig!(i1z base 36), || ibig!(-i1z base 36)))),
    ("_ii0 base 36", Some("5da8"), || ubig!(_ii0 base 36), None),
    ("ii0 base 36", Some("5da8"), || ubig!(ii0 base 36), None),
    ("_ii1 base 36", Some("5da9"), || ubig!(_ii1 base 36), Some((|| ibig!(_ii1 base 36), || ibig!(-_ii1 base 36)))),
    ("ii1 base 36", Some("5da9"), || ubig!(ii1 base 36), None),
    ("_iii base 36", Some("5dba"), || ubig!(_iii base 36), None),
    ("iii base 36", Some("5dba"), || ubig!(iii base 36), Some((|| ibig!(iii base 36), || ibig!(-iii base 36)))),
    ("_iiz base 36", Some("5dcb"), || ubig!(_iiz base 36), None),
    ("iiz base 36", Some("5dcb"), || ubig!(iiz base 36), None),
    ("_iz0 base 36", Some("600c"), || ubig!(_iz0 base 36), Some((|| ibig!(_iz0 base 36), || ibig!(-_iz0 base 36)))),
    ("iz0 base 36", Some("600c"), || ubig!(iz0 base 36), None),
    ("_iz1 base 36", Some("600d"), || ubig!(_iz1 base 36), None),
    ("iz1 base 36", Some("600d"), || ubig!(iz1 base 36), Some((|| ibig!(iz1 base 36), || ibig!(-iz1 base 36)))),
    ("_izi base 36", Some("601e"), || ubig!(_izi base 36), None),
    ("izi base 36", Some("601e"), || ubig!(izi base 36), None),
    ("_izz base 36", Some("602f"), || ubig!(_izz base 36), Some((|| ibig!(_izz base 36), || ibig!(-_izz base 36)))),
    ("izz base 36", Some("602f"), || ubig!(izz base 36), None),
    ("_z00 base 36", Some("b130"), || ubig!(_z00 base 36), None),
    ("z00 base 36", Some("b130"), || ubig!(z00 base 36), Some((|| ibig!(z00 base 36), || ibig!(-z00 base 36)))),
    ("_z01 base 36", Some("b131"), || ubig!(_z01 base 36), None),
    ("z01 base 36", Some("b131"), || ubig!(z01 base 36), None),
    ("_z0i base 36", Some("b142"), || ubig!(_z0i base 36), Some((|| ibig!(_z0i base 36), || ibig!(-_z0i base 36)))),
    ("z0i base 36", Some("b142"), || ubig!(z0i base 36), None),
    ("_z0z base 36", Some("b153"), || ubig!(_z0z base 36), None),
    ("z0z base 36", Some("b153"), || ubig!(z0z base 36), Some((|| ibig!(z0z base 36), || ibig!(-z0z base 36)))),
    ("_z10 base 36", Some("b154"), || ubig!(_z10 base 36), None),
    ("z10 base 36", Some("b154"), || ubig!(z10 base 36), None),
    ("_z11 base 36", Some("b155"), || ubig!(_z11 base 36), Some((|| ibig!(_z11 base 36), || ibig!(-_z11 base 36)))),
    ("z11 base 36", Some("b155"), || ubig!(z11 base 36), None),
    ("_z1i base 36", Some("b166"), || ubig!(_z1i base 36), None),
    ("z1i base 36", Some("b166"), || ubig!(z1i base 36), Some((|| ibig!(z1i base 36), || ibig!(-z1i base 36)))),
    ("_z1z base 36", Some("b177"), || ubig!(_z1z base 36), None),
    ("z1z base 36", Some("b177"), || ubig!(z1z base 36), None),
    ("_zi0 base 36", Some("b3b8"), || ubig!(_zi0 base 36), Some((|| ibig!(_zi0 base 36), || ibig!(-_zi0 base 36)))),
    ("zi0 base 36", Some("b3b8"), || ubig!(zi0 base 36), None),
    ("_zi1 base 36", Some("b3b9"), || ubig!(_zi1 base 36), None),
    ("zi1 base 36", Some("b3b9"), || ubig!(zi1 base 36), Some((|| ibig!(zi1 base 36), || ibig!(-zi1 base 36)))),
    ("_zii base 36", Some("b3ca"), || ubig!(_zii base 36), None),
    ("zii base 36", Some("b3ca"), || ubig!(zii base 36), None),
    ("_ziz base 36", Some("b3db"), || ubig!(_ziz base 36), Some((|| ibig!(_ziz base 36), || ibig!(-_ziz base 36)))),
    ("ziz base 36", Some("b3db"), || ubig!(ziz base 36), None),
    ("_zz0 base 36", Some("b61c"), || ubig!(_zz0 base 36), None),
    ("zz0 base 36", Some("b61c"), || ubig!(zz0 base 36), Some((|| ibig!(zz0 base 36), || ibig!(-zz0 base 36)))),
    ("_zz1 base 36", Some("b61d"), || ubig!(_zz1 base 36), None),
    ("zz1 base 36", Some("b61d"), || ubig!(zz1 base 36), None),
    ("_zzi base 36", Some("b62e"), || ubig!(_zzi base 36), Some((|| ibig!(_zzi base 36), || ibig!(-_zzi base 36)))),
    ("zzi base 36", Some("b62e"), || ubig!(zzi base 36), None),
    ("_zzz base 36", Some("b63f"), || ubig!(_zzz base 36), None),
    ("zzz base 36", Some("b63f"), || ubig!(zzz base 36), Some((|| ibig!(zzz base 36), || ibig!(-zzz base 36)))),
    ("_3j base 36", Some("7f"), || ubig!(_3j base 36), None),
    ("_3J base 36", Some("7f"), || ubig!(_3J base 36), None),
    ("_pa8 base 36", Some("8000"), || ubig!(_pa8 base 36), Some((|| ibig!(_pa8 base 36), || ibig!(-_pa8 base 36)))),
    ("_PA8 base 36", Some("8000"), || ubig!(_PA8 base 36), None),
    ("PA8 base 36", Some("8000"), || ubig!(PA8 base 36), None),
    ("_2t4x base 36", Some("20001"), || ubig!(_2t4x base 36), Some((|| ibig!(_2t4x base 36), || ibig!(-_2t4x base 36)))),
    ("_2T4X base 36", Some("20001"), || ubig!(_2T4X base 36), None),
    ("_3y283y7 base 36", Some("1ffffffff"), || ubig!(_3y283y7 base 36), None),
    ("_3Y283Y7 base 36", Some("1ffffffff"), || ubig!(_3Y283Y7 base 36), Some((|| ibig!(_3Y283Y7 base 36), || ibig!(-_3Y283Y7 base 36)))),
    ("_2rrvthnxts base 36", Some("1000000000000"), || ubig!(_2rrvthnxts base 36), None),
    ("_2RRVTHNXTS base 36", Some("1000000000000"), || ubig!(_2RRVTHNXTS base 36), None),
    ("_3w5e11264sgsh base 36", Some("10000000000000001"), || ubig!(_3w5e11264sgsh base 36), Some((|| ibig!(_3w5e11264sgsh base 36), || ibig!(-_3w5e11264sgsh base 36)))),
    ("_3W5E11264SGSH base 36", Some("10000000000000001"), || ubig!(_3W5E11264SGSH base 36), None),
    ("_5gv2rma270x9hhj3 base 36", Some("ffffffffffffffffffff"), || ubig!(_5gv2rma270x9hhj3 base 36), None),
    ("_5GV2RMA270X9HHJ3 base 36", Some("ffffffffffffffffffff"), || ubig!(_5GV2RMA270X9HHJ3 base 36), Some((|| ibig!(_5GV2RMA270X9HHJ3 base 36), || ibig!(-_5GV2RMA270X9HHJ3 base 36)))),
    ("_7oiylpimjg5u2ca1yps base 36", Some("1000000000000000000000000"), || ubig!(_7oiylpimjg5u2ca1yps base 36), None),
    ("_7OIYLPIMJG5U2CA1YPS base 36", Some("1000000000000000000000000"), || ubig!(_7OIYLPIMJG5U2CA1YPS base 36), None),
    ("_7ksyyizzkutudzbv8aqztecjl base 36", Some("80000000000000000000000000000001"), || ubig!(_7ksyyizzkutudzbv8aqztecjl base 36), Some((|| ibig!(_7ksyyizzkutudzbv8aqztecjl base 36), || ibig!(-_7ksyyizzkutudzbv8aqztecjl base 36)))),
    ("_7KSYYIZZKUTUDZBV8AQZTECJL base 36", Some("80000000000000000000000000000001"), || ubig!(_7KSYYIZZKUTUDZBV8AQZTECJL base 36), None),
    ("_twj4yidkw7a8pn4g709kzmfoaol3x8f base 36", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_twj4yidkw7a8pn4g709kzmfoaol3x8f base 36), None),
    ("_TWJ4YIDKW7A8PN4G709KZMFOAOL3X8F base 36", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(_TWJ4YIDKW7A8PN4G709KZMFOAOL3X8F base 36), Some((|| ibig!(_TWJ4YIDKW7A8PN4G709KZMFOAOL3X8F base 36), || ibig!(-_TWJ4YIDKW7A8PN4G709KZMFOAOL3X8F base 36)))),
    ("TWJ4YIDKW7A8PN4G709KZMFOAOL3X8F base 36", Some("ffffffffffffffffffffffffffffffffffffffff"), || ubig!(TWJ4YIDKW7A8PN4G709KZMFOAOL3X8F base 36), None),
    ("_36ukv65j19b11mbvjyfui963v4my01krth19g3r3bk1ojlrwu8 base 36", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_36ukv65j19b11mbvjyfui963v4my01krth19g3r3bk1ojlrwu8 base 36), None),
    ("_36UKV65J19B11MBVJYFUI963V4MY01KRTH19G3R3BK1OJLRWU8 base 36", Some("8000000000000000000000000000000000000000000000000000000000000000"), || ubig!(_36UKV65J19B11MBVJYFUI963V4MY01KRTH19G3R3BK1OJLRWU8 base 36), Some((|| ibig!(_36UKV65J19B11MBVJYFUI963V4MY01KRTH19G3R3BK1OJLRWU8 base 36), || ibig!(-_36UKV65J19B11MBVJYFUI963V4MY01KRTH19G3R3BK1OJLRWU8 base 36)))),
    ("_ou88al7nsj14a2pancybh3w3378r0we476bl9wysaj2w55hleccvknxckr7bb5 base 36", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_ou88al7nsj14a2pancybh3w3378r0we476bl9wysaj2w55hleccvknxckr7bb5 base 36), None),
    ("_OU88AL7NSJ14A2PANCYBH3W3378R0WE476BL9WYSAJ2W55HLECCVKNXCKR7BB5 base 36", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(_OU88AL7NSJ14A2PANCYBH3W3378R0WE476BL9WYSAJ2W55HLECCVKNXCKR7BB5 base 36), None),
    ("OU88AL7NSJ14A2PANCYBH3W3378R0WE476BL9WYSAJ2W55HLECCVKNXCKR7BB5 base 36", Some("100000000000000000000000000000000000000000000000000000000000000000000000000000001"), || ubig!(OU88AL7NSJ14A2PANCYBH3W3378R0WE476BL9WYSAJ2W55HLECCVKNXCKR7BB5 base 36), Some((|| ibig!(OU88AL7NSJ14A2PANCYBH3W3378R0WE476BL9WYSAJ2W55HLECCVKNXCKR7BB5 base 36), || ibig!(-OU88AL7NSJ14A2PANCYBH3W3378R0WE476BL9WYSAJ2W55HLECCVKNXCKR7BB5 base 36)))),
    ("_3ogewei5ms3o4nszjocz8suwbuvemzo89vo2qp42tnuo base 36", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_3ogewei5ms3o4nszjocz8suwbuvemzo89vo2qp42tnuo base 36), None),
    ("_3OGEWEI5MS3O4NSZJOCZ8SUWBUVEMZO89VO2QP42TNUO base 36", Some("123456789abcdef0fedcba98765432100000000000000000000000000"), || ubig!(_3OGEWEI5MS3O4NSZJOCZ8SUWBUVEMZO89VO2QP42TNUO base 36), None),
    ("_1000000000000 base 36", Some("41c21cb8e1000000"), || ubig!(_1000000000000 base 36), Some((|| ibig!(_1000000000000 base 36), || ibig!(-_1000000000000 base 36)))),
    ("_zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz base 36", Some("6f32f1ef8b18a2bc3cea59789c79d440ffffffffffffffffffff"), || ubig!(_zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz base 36), None),
    ("_ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ base 36", Some("6f32f1ef8b18a2bc3cea59789c79d440ffffffffffffffffffff"), || ubig!(_ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ base 36), None),
    ("ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ base 36", Some("6f32f1ef8b18a2bc3cea59789c79d440ffffffffffffffffffff"), || ubig!(ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ base 36), Some((|| ibig!(ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ base 36), || ibig!(-ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ base 36)))),
    ("_100000000000000000000000000000000000000000 base 36", Some("fa32a05af8f76e27890f494f60121d92400000000000000000000"), || ubig!(_100000000000000000000000000000000000000000 base 36), None),
    ("_1_0 base 36", None, || ubig!(_1_0 base 36), None),
];
pub static PART34: &[Row] = &[
    ("__1 base 36", None, || ubig!(__1 base 36), Some((|| ibig!(__1 base 36), || ibig!(-__1 base 36)))),
    ("1_0 base 36", None, || ubig!(1_0 base 36), None),
    ("as base 36", Some("184"), || ubig!(as base 36), None),
    ("as base 12", None, || ubig!(as base 12), Some((|| ibig!(as base 12), || ibig!(-as base 12)))),
    ("do base 36", Some("1ec"), || ubig!(do base 36), None),
    ("do base 12", None, || ubig!(do base 12), None),
    ("if base 36", Some("297"), || ubig!(if base 36), Some((|| ibig!(if base 36), || ibig!(-if base 36)))),
    ("if base 12", None, || ubig!(if base 12), None),
    ("in base 36", Some("29f"), || ubig!(in base 36), None),
    ("in base 12", None, || ubig!(in base 12), Some((|| ibig!(in base 12), || ibig!(-in base 12)))),
    ("fn base 36", Some("233"), || ubig!(fn base 36), None),
    ("fn base 12", None, || ubig!(fn base 12), None),
    ("let base 36", Some("6c65"), || ubig!(let base 36), Some((|| ibig!(let base 36), || ibig!(-let base 36)))),
    ("let base 12", None, || ubig!(let base 12), None),
    ("self base 36", Some("1438e3"), || ubig!(self base 36), None),
    ("self base 12", None, || ubig!(self base 12), Some((|| ibig!(self base 12), || ibig!(-self base 12)))),
    ("true base 36", Some("153236"), || ubig!(true base 36), None),
    ("true base 12", None, || ubig!(true base 12), None),
    ("false base 36", Some("187fbce"), || ubig!(false base 36), Some((|| ibig!(false base 36), || ibig!(-false base 36)))),
    ("false base 12", None, || ubig!(false base 12), None),
    ("match base 36", Some("23b8911"), || ubig!(match base 36), None),
    ("match base 12", None, || ubig!(match base 12), Some((|| ibig!(match base 12), || ibig!(-match base 12)))),
    ("crate base 36", Some("146fb82"), || ubig!(crate base 36), None),
    ("crate base 12", None, || ubig!(crate base 12), None),
    ("_11 base 0x10", Some("11"), || ubig!(_11 base 0x10), Some((|| ibig!(_11 base 0x10), || ibig!(-_11 base 0x10)))),
    ("10 base 0x10", Some("10"), || ubig!(10 base 0x10), None),
    ("_11 base 0b1000", Some("9"), || ubig!(_11 base 0b1000), None),
    ("10 base 0b1000", Some("8"), || ubig!(10 base 0b1000), Some((|| ibig!(10 base 0b1000), || ibig!(-10 base 0b1000)))),
    ("_11 base 1_0", Some("b"), || ubig!(_11 base 1_0), None),
    ("10 base 1_0", Some("a"), || ubig!(10 base 1_0), None),
    ("_11 base 36u32", Some("25"), || ubig!(_11 base 36u32), Some((|| ibig!(_11 base 36u32), || ibig!(-_11 base 36u32)))),
    ("10 base 36u32", Some("24"), || ubig!(10 base 36u32), None),
    ("_11 base 0", None, || ubig!(_11 base 0), None),
    ("10 base 0", None, || ubig!(10 base 0), Some((|| ibig!(10 base 0), || ibig!(-10 base 0)))),
    ("_11 base 1", None, || ubig!(_11 base 1), None),
    ("10 base 1", None, || ubig!(10 base 1), None),
    ("_11 base 37", None, || ubig!(_11 base 37), Some((|| ibig!(_11 base 37), || ibig!(-_11 base 37)))),
    ("10 base 37", None, || ubig!(10 base 37), None),
    ("_11 base 0xffffffff", None, || ubig!(_11 base 0xffffffff), None),
    ("10 base 0xffffffff", None, || ubig!(10 base 0xffffffff), Some((|| ibig!(10 base 0xffffffff), || ibig!(-10 base 0xffffffff)))),
    ("_11 base 256", None, || ubig!(_11 base 256), None),
    ("10 base 256", None, || ubig!(10 base 256), None),
    ("_11 base 258", None, || ubig!(_11 base 258), Some((|| ibig!(_11 base 258), || ibig!(-_11 base 258)))),
    ("10 base 258", None, || ubig!(10 base 258), None),
    ("0b1 base 16", Some("b1"), || ubig!(0b1 base 16), None),
    ("0b10 base 32", Some("2c20"), || ubig!(0b10 base 32), Some((|| ibig!(0b10 base 32), || ibig!(-0b10 base 32)))),
    ("0x1 base 36", Some("4a5"), || ubig!(0x1 base 36), None),
    ("0o7 base 36", Some("367"), || ubig!(0o7 base 36), None),
    ("0b1 base 2", None, || ubig!(0b1 base 2), Some((|| ibig!(0b1 base 2), || ibig!(-0b1 base 2)))),
];
pub static PARTS: [&[Row]; 35] = [PART0, PART1, PART2, PART3, PART4, PART5, PART6, PART7, PART8, PART9, PART10, PART11, PART12, PART13, PART14, PART15, PART16, PART17, PART18, PART19, PART20, PART21, PART22, PART23, PART24, PART25, PART26, PART27, PART28, PART29, PART30, PART31, PART32, PART33, PART34];
