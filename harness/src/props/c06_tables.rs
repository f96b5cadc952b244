// Found by search, see `DESIGN.md`, C06.
/// Of 2.1e9 messages signed by key 1 with nonce 1: those with the longest runs of equal bits in the hash (whole or
/// below each multiple of 21 bits), in the hash modulo the order and in S, and those nearest to 0 and to the order.
pub const MESSAGES: &[u64] = &[
    0x79cb35, 0x2831fc7, 0x4c7c583, 0x4e09648, 0x5052e07, 0x537632c, 0x647c7db, 0x78de37e, 0x889065e, 0x906100d,
    0xae4d3ad, 0xcf4ce74, 0xf514363, 0xf893857, 0x1000000001b625de, 0x10000000039fcff8, 0x1000000005e29bf6,
    0x1000000006d7140e, 0x1000000008edb1cc, 0x1000000008f6c4ca, 0x1000000009207902, 0x10000000094dc5b7,
    0x10000000096fc833, 0x1000000009ca0269, 0x100000000a5b1960, 0x100000000aef7f5c, 0x100000000bda6602,
    0x100000000e023311, 0x100000000e78112f, 0x100000000e80b6a1, 0x100000000f927760, 0x2000000003e7c11d,
    0x20000000043499ad, 0x2000000004fe4c1e, 0x200000000516a52f, 0x200000000645d7e6, 0x2000000006c03a54,
    0x2000000007737e1f, 0x2000000008164dcd, 0x20000000095c3526, 0x200000000acc93b3, 0x200000000cc97569,
    0x200000000eb44a92, 0x200000000f36b1b8, 0x200000000f8943fd, 0x30000000035e9546, 0x300000000418ebf7,
    0x300000000a115cc3, 0x300000000a6976da, 0x300000000bf39ed8, 0x300000000c8c570f, 0x300000000ee711f9,
    0x300000000f94285d, 0x40000000021be08d, 0x4000000003557cdb, 0x400000000417d236, 0x4000000007c70411,
    0x400000000960596a, 0x4000000009c9c20b, 0x400000000a12b7c1, 0x400000000c7a43d7, 0x400000000d1023f0,
    0x5000000003047773, 0x500000000307813d, 0x50000000058e81bd, 0x5000000005edcf03, 0x500000000b5ed53b,
    0x500000000bcac0be, 0x500000000c9a30bc, 0x500000000da94c33, 0x6000000000037a7b, 0x60000000000a441c,
    0x60000000000e3e50, 0x60000000001239c1, 0x6000000000189134, 0x600000000036d44b, 0x6000000000acf97e,
    0x6000000001e088b0, 0x60000000034490be, 0x6000000003df6f55, 0x6000000003f59b14, 0x60000000087c1afa,
    0x6000000008b77a3b, 0x60000000096752eb, 0x600000000aab5d68, 0x600000000ac079e2, 0x600000000acbe935,
    0x600000000da6b835, 0x600000000f9e8f73, 0x600000000fa968ad, 0x70000000027b3cda, 0x7000000002afb96b,
    0x7000000003cabdb0, 0x7000000005226cc9, 0x70000000065237b8, 0x70000000072dcfe8, 0x7000000007c9d793,
    0x7000000007de96b2, 0x70000000089b6c5b, 0x7000000008a92366, 0x700000000aea3bed, 0x700000000d551833,
    0x700000000de45f42, 0x700000000df035b7,
];
/// Multiples of the base point whose coordinates have the longest such runs (below multiples of 51 bits), or are
/// nearest to 0 and to the field's prime.
pub const MULTIPLES: &[u64] = &[
    0x19cc2d9, 0x247635c, 0x10001ad0c54, 0x2000156dbe4, 0x2000219a0f8, 0x2000246547c, 0x20002663553, 0x30000702a4c,
    0x300019496da, 0x30002100878, 0x400017ed24e, 0x40001c969ac, 0x4000299dcd7, 0x5000061e5c5, 0x500009f4039,
    0x50001139282, 0x6000002bd4d, 0x6000057e24c, 0x6000116e07f, 0x6000198de8f, 0x60001c179a8, 0x6000231808d,
    0x600026cacb3, 0x7000093a887, 0x70000d2a26a, 0x7000106d1ef, 0x7000134b760, 0x70001f067e3,
];
