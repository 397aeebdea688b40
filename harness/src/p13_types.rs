// generated by tools/gen_p13.py
shape! { [] R11 [a: u8, b: u8] }
shape! { [#[repr(C)]] C11 [a: u8, b: u8] }
shape! { [#[repr(packed)]] P11 [a: u8, b: u8] }
shape! { [] R12 [a: u8, b: u16] }
shape! { [#[repr(C)]] C12 [a: u8, b: u16] }
shape! { [#[repr(packed)]] P12 [a: u8, b: u16] }
shape! { [] R18 [a: u8, b: u64] }
shape! { [#[repr(C)]] C18 [a: u8, b: u64] }
shape! { [#[repr(packed)]] P18 [a: u8, b: u64] }
shape! { [] R1B [a: u8, b: bool] }
shape! { [#[repr(C)]] C1B [a: u8, b: bool] }
shape! { [#[repr(packed)]] P1B [a: u8, b: bool] }
shape! { [] R1F [a: u8, b: f32] }
shape! { [#[repr(C)]] C1F [a: u8, b: f32] }
shape! { [#[repr(packed)]] P1F [a: u8, b: f32] }
shape! { [] R1A [a: u8, b: [u16; 2]] }
shape! { [#[repr(C)]] C1A [a: u8, b: [u16; 2]] }
shape! { [#[repr(packed)]] P1A [a: u8, b: [u16; 2]] }
shape! { [] R21 [a: u16, b: u8] }
shape! { [#[repr(C)]] C21 [a: u16, b: u8] }
shape! { [#[repr(packed)]] P21 [a: u16, b: u8] }
shape! { [] R22 [a: u16, b: u16] }
shape! { [#[repr(C)]] C22 [a: u16, b: u16] }
shape! { [#[repr(packed)]] P22 [a: u16, b: u16] }
shape! { [] R28 [a: u16, b: u64] }
shape! { [#[repr(C)]] C28 [a: u16, b: u64] }
shape! { [#[repr(packed)]] P28 [a: u16, b: u64] }
shape! { [] R2B [a: u16, b: bool] }
shape! { [#[repr(C)]] C2B [a: u16, b: bool] }
shape! { [#[repr(packed)]] P2B [a: u16, b: bool] }
shape! { [] R2F [a: u16, b: f32] }
shape! { [#[repr(C)]] C2F [a: u16, b: f32] }
shape! { [#[repr(packed)]] P2F [a: u16, b: f32] }
shape! { [] R2A [a: u16, b: [u16; 2]] }
shape! { [#[repr(C)]] C2A [a: u16, b: [u16; 2]] }
shape! { [#[repr(packed)]] P2A [a: u16, b: [u16; 2]] }
shape! { [] R81 [a: u64, b: u8] }
shape! { [#[repr(C)]] C81 [a: u64, b: u8] }
shape! { [#[repr(packed)]] P81 [a: u64, b: u8] }
shape! { [] R82 [a: u64, b: u16] }
shape! { [#[repr(C)]] C82 [a: u64, b: u16] }
shape! { [#[repr(packed)]] P82 [a: u64, b: u16] }
shape! { [] R88 [a: u64, b: u64] }
shape! { [#[repr(C)]] C88 [a: u64, b: u64] }
shape! { [#[repr(packed)]] P88 [a: u64, b: u64] }
shape! { [] R8B [a: u64, b: bool] }
shape! { [#[repr(C)]] C8B [a: u64, b: bool] }
shape! { [#[repr(packed)]] P8B [a: u64, b: bool] }
shape! { [] R8F [a: u64, b: f32] }
shape! { [#[repr(C)]] C8F [a: u64, b: f32] }
shape! { [#[repr(packed)]] P8F [a: u64, b: f32] }
shape! { [] R8A [a: u64, b: [u16; 2]] }
shape! { [#[repr(C)]] C8A [a: u64, b: [u16; 2]] }
shape! { [#[repr(packed)]] P8A [a: u64, b: [u16; 2]] }
shape! { [] RB1 [a: bool, b: u8] }
shape! { [#[repr(C)]] CB1 [a: bool, b: u8] }
shape! { [#[repr(packed)]] PB1 [a: bool, b: u8] }
shape! { [] RB2 [a: bool, b: u16] }
shape! { [#[repr(C)]] CB2 [a: bool, b: u16] }
shape! { [#[repr(packed)]] PB2 [a: bool, b: u16] }
shape! { [] RB8 [a: bool, b: u64] }
shape! { [#[repr(C)]] CB8 [a: bool, b: u64] }
shape! { [#[repr(packed)]] PB8 [a: bool, b: u64] }
shape! { [] RBB [a: bool, b: bool] }
shape! { [#[repr(C)]] CBB [a: bool, b: bool] }
shape! { [#[repr(packed)]] PBB [a: bool, b: bool] }
shape! { [] RBF [a: bool, b: f32] }
shape! { [#[repr(C)]] CBF [a: bool, b: f32] }
shape! { [#[repr(packed)]] PBF [a: bool, b: f32] }
shape! { [] RBA [a: bool, b: [u16; 2]] }
shape! { [#[repr(C)]] CBA [a: bool, b: [u16; 2]] }
shape! { [#[repr(packed)]] PBA [a: bool, b: [u16; 2]] }
shape! { [] RF1 [a: f32, b: u8] }
shape! { [#[repr(C)]] CF1 [a: f32, b: u8] }
shape! { [#[repr(packed)]] PF1 [a: f32, b: u8] }
shape! { [] RF2 [a: f32, b: u16] }
shape! { [#[repr(C)]] CF2 [a: f32, b: u16] }
shape! { [#[repr(packed)]] PF2 [a: f32, b: u16] }
shape! { [] RF8 [a: f32, b: u64] }
shape! { [#[repr(C)]] CF8 [a: f32, b: u64] }
shape! { [#[repr(packed)]] PF8 [a: f32, b: u64] }
shape! { [] RFB [a: f32, b: bool] }
shape! { [#[repr(C)]] CFB [a: f32, b: bool] }
shape! { [#[repr(packed)]] PFB [a: f32, b: bool] }
shape! { [] RFF [a: f32, b: f32] }
shape! { [#[repr(C)]] CFF [a: f32, b: f32] }
shape! { [#[repr(packed)]] PFF [a: f32, b: f32] }
shape! { [] RFA [a: f32, b: [u16; 2]] }
shape! { [#[repr(C)]] CFA [a: f32, b: [u16; 2]] }
shape! { [#[repr(packed)]] PFA [a: f32, b: [u16; 2]] }
shape! { [] RA1 [a: [u16; 2], b: u8] }
shape! { [#[repr(C)]] CA1 [a: [u16; 2], b: u8] }
shape! { [#[repr(packed)]] PA1 [a: [u16; 2], b: u8] }
shape! { [] RA2 [a: [u16; 2], b: u16] }
shape! { [#[repr(C)]] CA2 [a: [u16; 2], b: u16] }
shape! { [#[repr(packed)]] PA2 [a: [u16; 2], b: u16] }
shape! { [] RA8 [a: [u16; 2], b: u64] }
shape! { [#[repr(C)]] CA8 [a: [u16; 2], b: u64] }
shape! { [#[repr(packed)]] PA8 [a: [u16; 2], b: u64] }
shape! { [] RAB [a: [u16; 2], b: bool] }
shape! { [#[repr(C)]] CAB [a: [u16; 2], b: bool] }
shape! { [#[repr(packed)]] PAB [a: [u16; 2], b: bool] }
shape! { [] RAF [a: [u16; 2], b: f32] }
shape! { [#[repr(C)]] CAF [a: [u16; 2], b: f32] }
shape! { [#[repr(packed)]] PAF [a: [u16; 2], b: f32] }
shape! { [] RAA [a: [u16; 2], b: [u16; 2]] }
shape! { [#[repr(C)]] CAA [a: [u16; 2], b: [u16; 2]] }
shape! { [#[repr(packed)]] PAA [a: [u16; 2], b: [u16; 2]] }
shape! { [] R1 [a: u8] }
shape! { [#[repr(C)]] C1 [a: u8] }
shape! { [#[repr(packed)]] P1 [a: u8] }
shape! { [#[repr(transparent)]] T1 [a: u8] }
shape! { [] RI [a: i8] }
shape! { [#[repr(C)]] CI [a: i8] }
shape! { [#[repr(packed)]] PI [a: i8] }
shape! { [#[repr(transparent)]] TI [a: i8] }
shape! { [] R2 [a: u16] }
shape! { [#[repr(C)]] C2 [a: u16] }
shape! { [#[repr(packed)]] P2 [a: u16] }
shape! { [#[repr(transparent)]] T2 [a: u16] }
shape! { [] R4 [a: u32] }
shape! { [#[repr(C)]] C4 [a: u32] }
shape! { [#[repr(packed)]] P4 [a: u32] }
shape! { [#[repr(transparent)]] T4 [a: u32] }
shape! { [] R8 [a: u64] }
shape! { [#[repr(C)]] C8 [a: u64] }
shape! { [#[repr(packed)]] P8 [a: u64] }
shape! { [#[repr(transparent)]] T8 [a: u64] }
shape! { [] RX [a: u128] }
shape! { [#[repr(C)]] CX [a: u128] }
shape! { [#[repr(packed)]] PX [a: u128] }
shape! { [#[repr(transparent)]] TX [a: u128] }
shape! { [] RD [a: f64] }
shape! { [#[repr(C)]] CD [a: f64] }
shape! { [#[repr(packed)]] PD [a: f64] }
shape! { [#[repr(transparent)]] TD [a: f64] }
shape! { [] RB [a: bool] }
shape! { [#[repr(C)]] CB [a: bool] }
shape! { [#[repr(packed)]] PB [a: bool] }
shape! { [#[repr(transparent)]] TB [a: bool] }
shape! { [] RC [a: char] }
shape! { [#[repr(C)]] CC [a: char] }
shape! { [#[repr(packed)]] PC [a: char] }
shape! { [#[repr(transparent)]] TC [a: char] }
shape! { [] RA [a: [u16; 2]] }
shape! { [#[repr(C)]] CA [a: [u16; 2]] }
shape! { [#[repr(packed)]] PA [a: [u16; 2]] }
shape! { [#[repr(transparent)]] TA [a: [u16; 2]] }
shape! { [] RY [a: [u8; 3]] }
shape! { [#[repr(C)]] CY [a: [u8; 3]] }
shape! { [#[repr(packed)]] PY [a: [u8; 3]] }
shape! { [#[repr(transparent)]] TY [a: [u8; 3]] }
shape! { [] R111 [a: u8, b: u8, c: u8] }
shape! { [#[repr(C)]] C111 [a: u8, b: u8, c: u8] }
shape! { [#[repr(packed)]] P111 [a: u8, b: u8, c: u8] }
shape! { [] R112 [a: u8, b: u8, c: u16] }
shape! { [#[repr(C)]] C112 [a: u8, b: u8, c: u16] }
shape! { [#[repr(packed)]] P112 [a: u8, b: u8, c: u16] }
shape! { [] R114 [a: u8, b: u8, c: u32] }
shape! { [#[repr(C)]] C114 [a: u8, b: u8, c: u32] }
shape! { [#[repr(packed)]] P114 [a: u8, b: u8, c: u32] }
shape! { [] R121 [a: u8, b: u16, c: u8] }
shape! { [#[repr(C)]] C121 [a: u8, b: u16, c: u8] }
shape! { [#[repr(packed)]] P121 [a: u8, b: u16, c: u8] }
shape! { [] R122 [a: u8, b: u16, c: u16] }
shape! { [#[repr(C)]] C122 [a: u8, b: u16, c: u16] }
shape! { [#[repr(packed)]] P122 [a: u8, b: u16, c: u16] }
shape! { [] R124 [a: u8, b: u16, c: u32] }
shape! { [#[repr(C)]] C124 [a: u8, b: u16, c: u32] }
shape! { [#[repr(packed)]] P124 [a: u8, b: u16, c: u32] }
shape! { [] R141 [a: u8, b: u32, c: u8] }
shape! { [#[repr(C)]] C141 [a: u8, b: u32, c: u8] }
shape! { [#[repr(packed)]] P141 [a: u8, b: u32, c: u8] }
shape! { [] R142 [a: u8, b: u32, c: u16] }
shape! { [#[repr(C)]] C142 [a: u8, b: u32, c: u16] }
shape! { [#[repr(packed)]] P142 [a: u8, b: u32, c: u16] }
shape! { [] R144 [a: u8, b: u32, c: u32] }
shape! { [#[repr(C)]] C144 [a: u8, b: u32, c: u32] }
shape! { [#[repr(packed)]] P144 [a: u8, b: u32, c: u32] }
shape! { [] R211 [a: u16, b: u8, c: u8] }
shape! { [#[repr(C)]] C211 [a: u16, b: u8, c: u8] }
shape! { [#[repr(packed)]] P211 [a: u16, b: u8, c: u8] }
shape! { [] R212 [a: u16, b: u8, c: u16] }
shape! { [#[repr(C)]] C212 [a: u16, b: u8, c: u16] }
shape! { [#[repr(packed)]] P212 [a: u16, b: u8, c: u16] }
shape! { [] R214 [a: u16, b: u8, c: u32] }
shape! { [#[repr(C)]] C214 [a: u16, b: u8, c: u32] }
shape! { [#[repr(packed)]] P214 [a: u16, b: u8, c: u32] }
shape! { [] R221 [a: u16, b: u16, c: u8] }
shape! { [#[repr(C)]] C221 [a: u16, b: u16, c: u8] }
shape! { [#[repr(packed)]] P221 [a: u16, b: u16, c: u8] }
shape! { [] R222 [a: u16, b: u16, c: u16] }
shape! { [#[repr(C)]] C222 [a: u16, b: u16, c: u16] }
shape! { [#[repr(packed)]] P222 [a: u16, b: u16, c: u16] }
shape! { [] R224 [a: u16, b: u16, c: u32] }
shape! { [#[repr(C)]] C224 [a: u16, b: u16, c: u32] }
shape! { [#[repr(packed)]] P224 [a: u16, b: u16, c: u32] }
shape! { [] R241 [a: u16, b: u32, c: u8] }
shape! { [#[repr(C)]] C241 [a: u16, b: u32, c: u8] }
shape! { [#[repr(packed)]] P241 [a: u16, b: u32, c: u8] }
shape! { [] R242 [a: u16, b: u32, c: u16] }
shape! { [#[repr(C)]] C242 [a: u16, b: u32, c: u16] }
shape! { [#[repr(packed)]] P242 [a: u16, b: u32, c: u16] }
shape! { [] R244 [a: u16, b: u32, c: u32] }
shape! { [#[repr(C)]] C244 [a: u16, b: u32, c: u32] }
shape! { [#[repr(packed)]] P244 [a: u16, b: u32, c: u32] }
shape! { [] R411 [a: u32, b: u8, c: u8] }
shape! { [#[repr(C)]] C411 [a: u32, b: u8, c: u8] }
shape! { [#[repr(packed)]] P411 [a: u32, b: u8, c: u8] }
shape! { [] R412 [a: u32, b: u8, c: u16] }
shape! { [#[repr(C)]] C412 [a: u32, b: u8, c: u16] }
shape! { [#[repr(packed)]] P412 [a: u32, b: u8, c: u16] }
shape! { [] R414 [a: u32, b: u8, c: u32] }
shape! { [#[repr(C)]] C414 [a: u32, b: u8, c: u32] }
shape! { [#[repr(packed)]] P414 [a: u32, b: u8, c: u32] }
shape! { [] R421 [a: u32, b: u16, c: u8] }
shape! { [#[repr(C)]] C421 [a: u32, b: u16, c: u8] }
shape! { [#[repr(packed)]] P421 [a: u32, b: u16, c: u8] }
shape! { [] R422 [a: u32, b: u16, c: u16] }
shape! { [#[repr(C)]] C422 [a: u32, b: u16, c: u16] }
shape! { [#[repr(packed)]] P422 [a: u32, b: u16, c: u16] }
shape! { [] R424 [a: u32, b: u16, c: u32] }
shape! { [#[repr(C)]] C424 [a: u32, b: u16, c: u32] }
shape! { [#[repr(packed)]] P424 [a: u32, b: u16, c: u32] }
shape! { [] R441 [a: u32, b: u32, c: u8] }
shape! { [#[repr(C)]] C441 [a: u32, b: u32, c: u8] }
shape! { [#[repr(packed)]] P441 [a: u32, b: u32, c: u8] }
shape! { [] R442 [a: u32, b: u32, c: u16] }
shape! { [#[repr(C)]] C442 [a: u32, b: u32, c: u16] }
shape! { [#[repr(packed)]] P442 [a: u32, b: u32, c: u16] }
shape! { [] R444 [a: u32, b: u32, c: u32] }
shape! { [#[repr(C)]] C444 [a: u32, b: u32, c: u32] }
shape! { [#[repr(packed)]] P444 [a: u32, b: u32, c: u32] }
shape! { [] R2411 [a: u16, b: u32, c: u8, d: u8] }
shape! { [#[repr(C)]] C2411 [a: u16, b: u32, c: u8, d: u8] }
shape! { [] R2141 [a: u16, b: u8, c: u32, d: u8] }
shape! { [#[repr(C)]] C2141 [a: u16, b: u8, c: u32, d: u8] }
shape! { [] R2114 [a: u16, b: u8, c: u8, d: u32] }
shape! { [#[repr(C)]] C2114 [a: u16, b: u8, c: u8, d: u32] }
shape! { [] R4211 [a: u32, b: u16, c: u8, d: u8] }
shape! { [#[repr(C)]] C4211 [a: u32, b: u16, c: u8, d: u8] }
shape! { [] R4121 [a: u32, b: u8, c: u16, d: u8] }
shape! { [#[repr(C)]] C4121 [a: u32, b: u8, c: u16, d: u8] }
shape! { [] R4112 [a: u32, b: u8, c: u8, d: u16] }
shape! { [#[repr(C)]] C4112 [a: u32, b: u8, c: u8, d: u16] }
shape! { [] R1241 [a: u8, b: u16, c: u32, d: u8] }
shape! { [#[repr(C)]] C1241 [a: u8, b: u16, c: u32, d: u8] }
shape! { [] R1214 [a: u8, b: u16, c: u8, d: u32] }
shape! { [#[repr(C)]] C1214 [a: u8, b: u16, c: u8, d: u32] }
shape! { [] R1421 [a: u8, b: u32, c: u16, d: u8] }
shape! { [#[repr(C)]] C1421 [a: u8, b: u32, c: u16, d: u8] }
shape! { [] R1412 [a: u8, b: u32, c: u8, d: u16] }
shape! { [#[repr(C)]] C1412 [a: u8, b: u32, c: u8, d: u16] }
shape! { [] R1124 [a: u8, b: u8, c: u16, d: u32] }
shape! { [#[repr(C)]] C1124 [a: u8, b: u8, c: u16, d: u32] }
shape! { [] R1142 [a: u8, b: u8, c: u32, d: u16] }
shape! { [#[repr(C)]] C1142 [a: u8, b: u8, c: u32, d: u16] }
shape! { [] R1111 [a: u8, b: u8, c: u8, d: u8] }
shape! { [#[repr(C)]] C1111 [a: u8, b: u8, c: u8, d: u8] }
shape! { [#[repr(packed)]] P1111 [a: u8, b: u8, c: u8, d: u8] }
shape! { [] R2248 [a: u16, b: u16, c: u32, d: u64] }
shape! { [#[repr(C)]] C2248 [a: u16, b: u16, c: u32, d: u64] }
shape! { [#[repr(packed)]] P2248 [a: u16, b: u16, c: u32, d: u64] }
shape! { [] R8422 [a: u64, b: u32, c: u16, d: u16] }
shape! { [#[repr(C)]] C8422 [a: u64, b: u32, c: u16, d: u16] }
shape! { [#[repr(packed)]] P8422 [a: u64, b: u32, c: u16, d: u16] }
shape! { [] R22222 [a: u16, b: u16, c: u16, d: u16, e: u16] }
shape! { [#[repr(C)]] C22222 [a: u16, b: u16, c: u16, d: u16, e: u16] }
shape! { [#[repr(packed)]] P22222 [a: u16, b: u16, c: u16, d: u16, e: u16] }
shape! { [] R11111 [a: u8, b: u8, c: u8, d: u8, e: u8] }
shape! { [#[repr(C)]] C11111 [a: u8, b: u8, c: u8, d: u8, e: u8] }
shape! { [#[repr(packed)]] P11111 [a: u8, b: u8, c: u8, d: u8, e: u8] }
shape! { [] R41111 [a: u32, b: u8, c: u8, d: u8, e: u8] }
shape! { [#[repr(C)]] C41111 [a: u32, b: u8, c: u8, d: u8, e: u8] }
shape! { [#[repr(packed)]] P41111 [a: u32, b: u8, c: u8, d: u8, e: u8] }
shape! { [] R11114 [a: u8, b: u8, c: u8, d: u8, e: u32] }
shape! { [#[repr(C)]] C11114 [a: u8, b: u8, c: u8, d: u8, e: u32] }
shape! { [#[repr(packed)]] P11114 [a: u8, b: u8, c: u8, d: u8, e: u32] }
shape! { [] R14111 [a: u8, b: u32, c: u8, d: u8, e: u8] }
shape! { [#[repr(C)]] C14111 [a: u8, b: u32, c: u8, d: u8, e: u8] }
shape! { [#[repr(packed)]] P14111 [a: u8, b: u32, c: u8, d: u8, e: u8] }
shape! { [] R42114 [a: u32, b: u16, c: u8, d: u8, e: u32] }
shape! { [#[repr(C)]] C42114 [a: u32, b: u16, c: u8, d: u8, e: u32] }
shape! { [#[repr(packed)]] P42114 [a: u32, b: u16, c: u8, d: u8, e: u32] }
shape! { [] RB124 [a: bool, b: u8, c: u16, d: u32] }
shape! { [#[repr(C)]] CB124 [a: bool, b: u8, c: u16, d: u32] }
shape! { [#[repr(packed)]] PB124 [a: bool, b: u8, c: u16, d: u32] }
shape! { [] RDF2J [a: f64, b: f32, c: u16, d: i16] }
shape! { [#[repr(C)]] CDF2J [a: f64, b: f32, c: u16, d: i16] }
shape! { [#[repr(packed)]] PDF2J [a: f64, b: f32, c: u16, d: i16] }
shape! { [] RKI12F [a: i64, b: i8, c: u8, d: u16, e: f32] }
shape! { [#[repr(C)]] CKI12F [a: i64, b: i8, c: u8, d: u16, e: f32] }
shape! { [#[repr(packed)]] PKI12F [a: i64, b: i8, c: u8, d: u16, e: f32] }
shape! { [#[repr(C)]] NestC [a: C112, b: u32] }
shape! { [] NestR [a: u32, b: R112] }
shape! { [#[repr(C)]] NestX [a: R121, b: u16] }
shape! { [] NestY [a: R121, b: u32] }
shape! { [#[repr(packed)]] NestP [a: u8, b: P12, c: P241] }
shape! { [#[repr(transparent)]] NestT [a: C112] }
shape! { [#[repr(transparent)]] NestTR [a: R121] }
shape! { [#[repr(transparent)]] NestTT [a: NestT] }
shape! { [#[repr(transparent)]] NestTX [a: NestTR] }
shape! { [#[repr(transparent)]] NestTU [a: T2] }
shape! { [] NestMix [a: T2, b: T1, c: T1, d: NestT] }
shape! { [#[repr(C)]] NestCT [a: T2, b: TB, c: u8] }
shape! { [#[repr(C)]] NestPad [a: C12, b: u32] }
shape! { [#[repr(C)]] NestTail [a: C21, b: u8] }
shape! { [#[repr(packed)]] NestPP [a: P21, b: P12] }
shape! { [#[repr(transparent)]] NestTP [a: P21] }
shape! { [#[repr(C)]] NestCP [a: P21, b: u8, c: u32] }
shape! { [#[repr(align(2))]] Al2 [a: u8] }
shape! { [#[repr(align(4))]] Al4 [a: u8, b: u16] }
shape! { [#[repr(C, align(4))]] AlC4 [a: u16] }
shape! { [#[repr(C, align(8))]] AlC8 [a: u32, b: u32] }
shape! { [#[repr(align(16))]] Al16 [a: u64] }
shape! { [#[repr(C, align(4))]] Al4x [a: u8, b: u8, c: u16] }
shape! { [#[speedy(unsafe_is_primitive = always)] #[repr(C)]] ForceC [a: u16, b: u8, c: u8] }
shape! { [#[speedy(unsafe_is_primitive = always)] #[repr(C)] #[repr(packed)]] ForceP [a: u8, b: u32] }
shape! { [#[speedy(unsafe_is_primitive = always)]] ForceOne [a: u32] }
shape! { [#[repr(C)]] UnitC [a: u16, b: ()] }
shape! { [] UnitR [a: (), b: u32] }
shape! { [] UnitTwo [a: (), b: ()] }
shape! { [#[repr(transparent)]] UnitT [a: ()] }
#[cfg(feature = "p13a")] pub mod one { use super::*; crate::entries! {
    R11 { shapes_few::<R11>() }
    C11 { shapes_few::<C11>() }
    P11 { shapes_few::<P11>() }
    R12 { shapes_few::<R12>() }
    C12 { shapes_few::<C12>() }
    P12 { shapes_few::<P12>() }
    R18 { shapes_few::<R18>() }
    C18 { shapes_few::<C18>() }
    P18 { shapes_few::<P18>() }
    R1B { shapes_few::<R1B>() }
    C1B { shapes_few::<C1B>() }
    P1B { shapes_few::<P1B>() }
    R1F { shapes_few::<R1F>() }
    C1F { shapes_few::<C1F>() }
    P1F { shapes_few::<P1F>() }
    R1A { shapes_few::<R1A>() }
    C1A { shapes_few::<C1A>() }
    P1A { shapes_few::<P1A>() }
    R21 { shapes_few::<R21>() }
    C21 { shapes_few::<C21>() }
    P21 { shapes_few::<P21>() }
    R22 { shapes_few::<R22>() }
    C22 { shapes_few::<C22>() }
    P22 { shapes_few::<P22>() }
    R28 { shapes_few::<R28>() }
    C28 { shapes_few::<C28>() }
    P28 { shapes_few::<P28>() }
    R2B { shapes_few::<R2B>() }
    C2B { shapes_few::<C2B>() }
    P2B { shapes_few::<P2B>() }
    R2F { shapes_few::<R2F>() }
    C2F { shapes_few::<C2F>() }
    P2F { shapes_few::<P2F>() }
    R2A { shapes_few::<R2A>() }
    C2A { shapes_few::<C2A>() }
    P2A { shapes_few::<P2A>() }
    R81 { shapes_few::<R81>() }
    C81 { shapes_few::<C81>() }
    P81 { shapes_few::<P81>() }
    R82 { shapes_few::<R82>() }
    C82 { shapes_few::<C82>() }
    P82 { shapes_few::<P82>() }
    R88 { shapes_few::<R88>() }
    C88 { shapes_few::<C88>() }
    P88 { shapes_few::<P88>() }
    R8B { shapes_few::<R8B>() }
    C8B { shapes_few::<C8B>() }
    P8B { shapes_few::<P8B>() }
    R8F { shapes_few::<R8F>() }
    C8F { shapes_few::<C8F>() }
    P8F { shapes_few::<P8F>() }
    R8A { shapes_few::<R8A>() }
    C8A { shapes_few::<C8A>() }
    P8A { shapes_few::<P8A>() }
    RB1 { shapes_few::<RB1>() }
    CB1 { shapes_few::<CB1>() }
    PB1 { shapes_few::<PB1>() }
    RB2 { shapes_few::<RB2>() }
    CB2 { shapes_few::<CB2>() }
    PB2 { shapes_few::<PB2>() }
    RB8 { shapes_few::<RB8>() }
    CB8 { shapes_few::<CB8>() }
    PB8 { shapes_few::<PB8>() }
    RBB { shapes_few::<RBB>() }
    CBB { shapes_few::<CBB>() }
    PBB { shapes_few::<PBB>() }
    RBF { shapes_few::<RBF>() }
    CBF { shapes_few::<CBF>() }
    PBF { shapes_few::<PBF>() }
    RBA { shapes_few::<RBA>() }
    CBA { shapes_few::<CBA>() }
    PBA { shapes_few::<PBA>() }
    RF1 { shapes_few::<RF1>() }
    CF1 { shapes_few::<CF1>() }
    PF1 { shapes_few::<PF1>() }
    RF2 { shapes_few::<RF2>() }
    CF2 { shapes_few::<CF2>() }
    PF2 { shapes_few::<PF2>() }
    RF8 { shapes_few::<RF8>() }
    CF8 { shapes_few::<CF8>() }
    PF8 { shapes_few::<PF8>() }
    RFB { shapes_few::<RFB>() }
    CFB { shapes_few::<CFB>() }
    PFB { shapes_few::<PFB>() }
    RFF { shapes_few::<RFF>() }
    CFF { shapes_few::<CFF>() }
    PFF { shapes_few::<PFF>() }
    RFA { shapes_few::<RFA>() }
    CFA { shapes_few::<CFA>() }
    PFA { shapes_few::<PFA>() }
    RA1 { shapes_few::<RA1>() }
    CA1 { shapes_few::<CA1>() }
    PA1 { shapes_few::<PA1>() }
    RA2 { shapes_few::<RA2>() }
    CA2 { shapes_few::<CA2>() }
    PA2 { shapes_few::<PA2>() }
    RA8 { shapes_few::<RA8>() }
    CA8 { shapes_few::<CA8>() }
    PA8 { shapes_few::<PA8>() }
    RAB { shapes_few::<RAB>() }
    CAB { shapes_few::<CAB>() }
    PAB { shapes_few::<PAB>() }
    RAF { shapes_few::<RAF>() }
    CAF { shapes_few::<CAF>() }
    PAF { shapes_few::<PAF>() }
    RAA { shapes_few::<RAA>() }
    CAA { shapes_few::<CAA>() }
    PAA { shapes_few::<PAA>() }
    R1 { shapes_few::<R1>() }
    C1 { shapes_few::<C1>() }
    P1 { shapes_few::<P1>() }
    T1 { shapes_some::<T1>() }
    RI { shapes_few::<RI>() }
    CI { shapes_few::<CI>() }
    PI { shapes_few::<PI>() }
    TI { shapes_few::<TI>() }
    R2 { shapes_few::<R2>() }
    C2 { shapes_few::<C2>() }
    P2 { shapes_few::<P2>() }
    T2 { shapes_some::<T2>() }
    R4 { shapes_few::<R4>() }
    C4 { shapes_few::<C4>() }
    P4 { shapes_few::<P4>() }
    T4 { shapes_few::<T4>() }
    R8 { shapes_few::<R8>() }
    C8 { shapes_few::<C8>() }
    P8 { shapes_few::<P8>() }
    T8 { shapes_few::<T8>() }
    RX { shapes_few::<RX>() }
    CX { shapes_few::<CX>() }
    PX { shapes_few::<PX>() }
    TX { shapes_few::<TX>() }
    RD { shapes_few::<RD>() }
    CD { shapes_few::<CD>() }
    PD { shapes_few::<PD>() }
    TD { shapes_few::<TD>() }
    RB { shapes_few::<RB>() }
    CB { shapes_few::<CB>() }
    PB { shapes_few::<PB>() }
    TB { shapes_full::<TB>() }
    RC { shapes_few::<RC>() }
    CC { shapes_few::<CC>() }
    PC { shapes_few::<PC>() }
    TC { shapes_few::<TC>() }
    RA { shapes_few::<RA>() }
    CA { shapes_few::<CA>() }
    PA { shapes_few::<PA>() }
    TA { shapes_few::<TA>() }
    RY { shapes_few::<RY>() }
    CY { shapes_few::<CY>() }
    PY { shapes_few::<PY>() }
    TY { shapes_few::<TY>() }
} }
#[cfg(feature = "p13b")] pub mod many { use super::*; crate::entries! {
    R111 { shapes_few::<R111>() }
    C111 { shapes_few::<C111>() }
    P111 { shapes_few::<P111>() }
    R112 { shapes_few::<R112>() }
    C112 { shapes_few::<C112>() }
    P112 { shapes_few::<P112>() }
    R114 { shapes_few::<R114>() }
    C114 { shapes_few::<C114>() }
    P114 { shapes_few::<P114>() }
    R121 { shapes_some::<R121>() }
    C121 { shapes_some::<C121>() }
    P121 { shapes_full::<P121>() }
    R122 { shapes_few::<R122>() }
    C122 { shapes_few::<C122>() }
    P122 { shapes_few::<P122>() }
    R124 { shapes_few::<R124>() }
    C124 { shapes_few::<C124>() }
    P124 { shapes_few::<P124>() }
    R141 { shapes_few::<R141>() }
    C141 { shapes_few::<C141>() }
    P141 { shapes_few::<P141>() }
    R142 { shapes_few::<R142>() }
    C142 { shapes_few::<C142>() }
    P142 { shapes_few::<P142>() }
    R144 { shapes_few::<R144>() }
    C144 { shapes_few::<C144>() }
    P144 { shapes_few::<P144>() }
    R211 { shapes_some::<R211>() }
    C211 { shapes_some::<C211>() }
    P211 { shapes_some::<P211>() }
    R212 { shapes_few::<R212>() }
    C212 { shapes_few::<C212>() }
    P212 { shapes_few::<P212>() }
    R214 { shapes_few::<R214>() }
    C214 { shapes_few::<C214>() }
    P214 { shapes_few::<P214>() }
    R221 { shapes_few::<R221>() }
    C221 { shapes_few::<C221>() }
    P221 { shapes_few::<P221>() }
    R222 { shapes_few::<R222>() }
    C222 { shapes_few::<C222>() }
    P222 { shapes_few::<P222>() }
    R224 { shapes_few::<R224>() }
    C224 { shapes_few::<C224>() }
    P224 { shapes_few::<P224>() }
    R241 { shapes_few::<R241>() }
    C241 { shapes_few::<C241>() }
    P241 { shapes_few::<P241>() }
    R242 { shapes_few::<R242>() }
    C242 { shapes_few::<C242>() }
    P242 { shapes_few::<P242>() }
    R244 { shapes_few::<R244>() }
    C244 { shapes_few::<C244>() }
    P244 { shapes_few::<P244>() }
    R411 { shapes_few::<R411>() }
    C411 { shapes_few::<C411>() }
    P411 { shapes_few::<P411>() }
    R412 { shapes_few::<R412>() }
    C412 { shapes_few::<C412>() }
    P412 { shapes_few::<P412>() }
    R414 { shapes_few::<R414>() }
    C414 { shapes_few::<C414>() }
    P414 { shapes_few::<P414>() }
    R421 { shapes_few::<R421>() }
    C421 { shapes_few::<C421>() }
    P421 { shapes_few::<P421>() }
    R422 { shapes_few::<R422>() }
    C422 { shapes_few::<C422>() }
    P422 { shapes_few::<P422>() }
    R424 { shapes_few::<R424>() }
    C424 { shapes_few::<C424>() }
    P424 { shapes_few::<P424>() }
    R441 { shapes_few::<R441>() }
    C441 { shapes_few::<C441>() }
    P441 { shapes_few::<P441>() }
    R442 { shapes_few::<R442>() }
    C442 { shapes_few::<C442>() }
    P442 { shapes_few::<P442>() }
    R444 { shapes_few::<R444>() }
    C444 { shapes_few::<C444>() }
    P444 { shapes_few::<P444>() }
    R2411 { shapes_few::<R2411>() }
    C2411 { shapes_few::<C2411>() }
    R2141 { shapes_few::<R2141>() }
    C2141 { shapes_few::<C2141>() }
    R2114 { shapes_few::<R2114>() }
    C2114 { shapes_few::<C2114>() }
    R4211 { shapes_few::<R4211>() }
    C4211 { shapes_few::<C4211>() }
    R4121 { shapes_few::<R4121>() }
    C4121 { shapes_few::<C4121>() }
    R4112 { shapes_few::<R4112>() }
    C4112 { shapes_few::<C4112>() }
    R1241 { shapes_few::<R1241>() }
    C1241 { shapes_few::<C1241>() }
    R1214 { shapes_few::<R1214>() }
    C1214 { shapes_few::<C1214>() }
    R1421 { shapes_few::<R1421>() }
    C1421 { shapes_few::<C1421>() }
    R1412 { shapes_few::<R1412>() }
    C1412 { shapes_few::<C1412>() }
    R1124 { shapes_few::<R1124>() }
    C1124 { shapes_few::<C1124>() }
    R1142 { shapes_few::<R1142>() }
    C1142 { shapes_few::<C1142>() }
    R1111 { shapes_few::<R1111>() }
    C1111 { shapes_few::<C1111>() }
    P1111 { shapes_few::<P1111>() }
    R2248 { shapes_few::<R2248>() }
    C2248 { shapes_few::<C2248>() }
    P2248 { shapes_few::<P2248>() }
    R8422 { shapes_few::<R8422>() }
    C8422 { shapes_few::<C8422>() }
    P8422 { shapes_few::<P8422>() }
    R22222 { shapes_few::<R22222>() }
    C22222 { shapes_few::<C22222>() }
    P22222 { shapes_few::<P22222>() }
    R11111 { shapes_few::<R11111>() }
    C11111 { shapes_few::<C11111>() }
    P11111 { shapes_few::<P11111>() }
    R41111 { shapes_few::<R41111>() }
    C41111 { shapes_few::<C41111>() }
    P41111 { shapes_few::<P41111>() }
    R11114 { shapes_few::<R11114>() }
    C11114 { shapes_few::<C11114>() }
    P11114 { shapes_few::<P11114>() }
    R14111 { shapes_some::<R14111>() }
    C14111 { shapes_some::<C14111>() }
    P14111 { shapes_some::<P14111>() }
    R42114 { shapes_few::<R42114>() }
    C42114 { shapes_few::<C42114>() }
    P42114 { shapes_few::<P42114>() }
    RB124 { shapes_few::<RB124>() }
    CB124 { shapes_few::<CB124>() }
    PB124 { shapes_few::<PB124>() }
    RDF2J { shapes_few::<RDF2J>() }
    CDF2J { shapes_few::<CDF2J>() }
    PDF2J { shapes_few::<PDF2J>() }
    RKI12F { shapes_few::<RKI12F>() }
    CKI12F { shapes_few::<CKI12F>() }
    PKI12F { shapes_few::<PKI12F>() }
    NestC { shapes_few::<NestC>() }
    NestR { shapes_few::<NestR>() }
    NestX { shapes_few::<NestX>() }
    NestY { shapes_few::<NestY>() }
    NestP { shapes_few::<NestP>() }
    NestT { shapes_few::<NestT>() }
    NestTR { shapes_few::<NestTR>() }
    NestTT { shapes_full::<NestTT>() }
    NestTX { shapes_some::<NestTX>() }
    NestTU { shapes_few::<NestTU>() }
    NestMix { shapes_full::<NestMix>() }
    NestCT { shapes_few::<NestCT>() }
    NestPad { shapes_few::<NestPad>() }
    NestTail { shapes_few::<NestTail>() }
    NestPP { shapes_some::<NestPP>() }
    NestTP { shapes_few::<NestTP>() }
    NestCP { shapes_few::<NestCP>() }
    Al2 { shapes_few::<Al2>() }
    Al4 { shapes_few::<Al4>() }
    AlC4 { shapes_few::<AlC4>() }
    AlC8 { shapes_full::<AlC8>() }
    Al16 { shapes_few::<Al16>() }
    Al4x { shapes_few::<Al4x>() }
    ForceC { shapes_some::<ForceC>() }
    ForceP { shapes_few::<ForceP>() }
    ForceOne { shapes_few::<ForceOne>() }
    UnitC { shapes_few::<UnitC>() }
    UnitR { shapes_few::<UnitR>() }
    UnitTwo { shapes_few::<UnitTwo>() }
    UnitT { shapes_few::<UnitT>() }
} }
