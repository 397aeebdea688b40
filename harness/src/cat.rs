//! The types the harnesses are instantiated with.
use crate::fam;
use crate::val::H;
use speedy::Endianness;
use std::borrow::Cow;
use std::collections::*;
use std::net::*;
use std::num::*;
use std::ops::*;
use std::sync::atomic::*;
use std::time::*;

fam! {
    U8: u8; U16: u16; U32: u32; U64: u64, N: usize = 9; U128: u128, N: usize = 17;
    I8: i8; I16: i16; I32: i32; I64: i64, N: usize = 9; I128: i128, N: usize = 17;
    F32: f32; F64: f64, N: usize = 9; Usize: usize, N: usize = 9;
    Bool: bool, CANON: bool = false; Char: char; Unit: (); Endian: Endianness;
    NzU8: NonZeroU8; NzU16: NonZeroU16; NzU32: NonZeroU32; NzU64: NonZeroU64, N: usize = 9;
    NzI8: NonZeroI8; NzI16: NonZeroI16; NzI32: NonZeroI32; NzI64: NonZeroI64, N: usize = 9;
    AtU8: AtomicU8; AtU16: AtomicU16; AtU32: AtomicU32; AtU64: AtomicU64, N: usize = 9;
    AtI8: AtomicI8; AtI16: AtomicI16; AtI32: AtomicI32; AtI64: AtomicI64, N: usize = 9;
    Ip4: Ipv4Addr; Ip6: Ipv6Addr, N: usize = 17; Ip: IpAddr, N: usize = 18;
    Dur: Duration, N: usize = 13, CANON: bool = false; STime: SystemTime, N: usize = 13, CANON: bool = false;
    Str: String, N: usize = 8; CowStr: Cow<'a, str>, N: usize = 8; RefStr: &'a str, N: usize = 8, STREAM: bool = false;
    BoxStr: Box<str>, N: usize = 8;
    VecU8: Vec<u8>; VecI8: Vec<i8>; VecU16: Vec<u16>, N: usize = 9; VecU32: Vec<u32>, N: usize = 13; VecI64: Vec<i64>, N: usize = 21;
    VecU128: Vec<u128>, N: usize = 21;
    VecF32: Vec<f32>, N: usize = 13; VecF64: Vec<f64>, N: usize = 13; VecBool: Vec<bool>, CANON: bool = false; VecChar: Vec<char>, N: usize = 13;
    VecStr: Vec<String>, N: usize = 14; VecOpt: Vec<Option<u16>>, N: usize = 10, CANON: bool = false; VecTup: Vec<(u8, u16)>, N: usize = 11;
    VecVec: Vec<Vec<u8>>, N: usize = 14; VecArr: Vec<[u16; 2]>, N: usize = 13; VecBoxStr: Vec<Box<str>>, N: usize = 10;
    CowU8: Cow<'a, [u8]>; CowU16: Cow<'a, [u16]>, N: usize = 9; CowU64: Cow<'a, [u64]>, N: usize = 21; CowStrs: Cow<'a, [String]>, N: usize = 12;
    CowBool: Cow<'a, [bool]>, CANON: bool = false; CowF32: Cow<'a, [f32]>, N: usize = 13;
    BoxU32: Box<u32>; BoxU16s: Box<[u16]>, N: usize = 9; BoxStrs: Box<[String]>, N: usize = 12; BoxVec: Box<Vec<u8>>;
    ArrU8: [u8; 3]; ArrU16: [u16; 3]; ArrU32: [u32; 2], N: usize = 9; ArrU64: [u64; 2], N: usize = 17; ArrI16: [i16; 2]; ArrF64: [f64; 1], N: usize = 9;
    ArrBool: [bool; 3], CANON: bool = false; ArrStr: [String; 2], N: usize = 11; ArrOpt: [Option<u8>; 3], CANON: bool = false; ArrArr: [[u16; 2]; 2], N: usize = 9; ArrEmpty: [u32; 0];
    ArrTup: [(u8, u16); 2];
    OptU16: Option<u16>, CANON: bool = false; OptStr: Option<String>, N: usize = 8, CANON: bool = false; OptOpt: Option<Option<u8>>, CANON: bool = false; OptBox: Option<Box<u32>>, CANON: bool = false;
    ResU16U8: Result<u16, u8>, CANON: bool = false; ResStrUnit: Result<String, ()>, N: usize = 8, CANON: bool = false; ResVec: Result<u8, Vec<u16>>, N: usize = 10, CANON: bool = false;
    RangeU16: Range<u16>; RangeIncU16: RangeInclusive<u16>; RangeStr: Range<String>, N: usize = 11; RangeIncU64: RangeInclusive<u64>, N: usize = 17;
    T1: (u16,); T2: (u8, u16); T3: (u16, u8, bool), CANON: bool = false; T4: (u8, u8, u16, Option<u8>), CANON: bool = false; T5: (u8, u16, u8, u16, u8); T6: (u8, u8, u8, u8, u8, u16);
    T7: (u8, u8, u8, u8, u8, u8, u16); T8: (u8, u8, u8, u8, u8, u8, u8, u16), N: usize = 10; T9: (u8, u8, u8, u8, u8, u8, u8, u8, u16), N: usize = 11;
    T10: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u16), N: usize = 12; T11: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16), N: usize = 13;
    TupStrs: (String, u8, Vec<u16>), N: usize = 13;
    BMapU8U16: BTreeMap<u8, u16>, N: usize = 11, CANON: bool = false; BMapU16Str: BTreeMap<u16, String>, N: usize = 12, CANON: bool = false;
    BSetU16: BTreeSet<u16>, N: usize = 9, CANON: bool = false; BSetU8: BTreeSet<u8>, N: usize = 7, CANON: bool = false;
    BSetStr: BTreeSet<String>, N: usize = 10, CANON: bool = false;
    HMapU8U8: HashMap<u8, u8, H>, N: usize = 9, CANON: bool = false; HMapU8U16: HashMap<u8, u16, H>, N: usize = 11, CANON: bool = false;
    HMapU32U8: HashMap<u32, u8, H>, N: usize = 14, CANON: bool = false; HMapU16Str: HashMap<u16, String, H>, N: usize = 12, CANON: bool = false;
    HMapStrU8: HashMap<String, u8, H>, N: usize = 10, CANON: bool = false;
    HSetU8: HashSet<u8, H>, N: usize = 7, CANON: bool = false; HSetU16: HashSet<u16, H>, N: usize = 9, CANON: bool = false;
    HSetStr: HashSet<String, H>, N: usize = 10, CANON: bool = false;
    CowBMap: Cow<'a, BTreeMap<u8, u16>>, N: usize = 10, CANON: bool = false; CowBSet: Cow<'a, BTreeSet<u16>>, N: usize = 8, CANON: bool = false;
    RefU8s: &'a [u8], STREAM: bool = false; RefI8s: &'a [i8], STREAM: bool = false; RefArrU8: &'a [u8; 3], STREAM: bool = false; RefArrI8: &'a [i8; 2], STREAM: bool = false;
}
#[macro_export]
macro_rules! std_catalog {
    ($m:ident, $f:ident) => { $crate::$m! { $f;
        U8 U16 U32 U64 U128 I8 I16 I32 I64 I128 F32 F64 Usize Bool Char Unit Endian
        NzU8 NzU16 NzU32 NzU64 NzI8 NzI16 NzI32 NzI64 AtU8 AtU16 AtU32 AtU64 AtI8 AtI16 AtI32 AtI64
        Ip4 Ip6 Ip Dur STime Str CowStr RefStr BoxStr
        VecU8 VecI8 VecU16 VecU32 VecI64 VecU128 VecF32 VecF64 VecBool VecChar VecStr VecOpt VecTup VecVec VecArr VecBoxStr
        CowU8 CowU16 CowU64 CowStrs CowBool CowF32 BoxU32 BoxU16s BoxStrs BoxVec
        ArrU8 ArrU16 ArrU32 ArrU64 ArrI16 ArrF64 ArrBool ArrStr ArrOpt ArrArr ArrEmpty ArrTup
        OptU16 OptStr OptOpt OptBox ResU16U8 ResStrUnit ResVec RangeU16 RangeIncU16 RangeStr RangeIncU64
        T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 TupStrs
        BMapU8U16 BMapU16Str BSetU16 BSetU8 BSetStr HMapU8U8 HMapU8U16 HMapU32U8 HMapU16Str HMapStrU8 HSetU8 HSetU16 HSetStr CowBMap CowBSet
        RefU8s RefI8s RefArrU8 RefArrI8
    } };
}

use crate::dt::*;
use crate::hand::*;
fam! {
    DPlain: SPlain, N: usize = 8; DTuple: STuple, N: usize = 8; DUnit: SUnit, N: usize = 1; DEmpty: SEmpty, N: usize = 1; DNew: SNew, N: usize = 3;
    DGenU16: SGen<u16>, N: usize = 3; DGenVec: SGen<Vec<u16>>, N: usize = 9; DGenDef: SGenDef<u16>, N: usize = 10; DPairMix: SPair<u8, String>, N: usize = 8;
    DGenRef: SGen<&'a str>, STREAM: bool = false; DGenCow: SGen<Cow<'a, [u16]>>, N: usize = 9;
    DCowB: SCowB<'a>; DCowW: SCowW<'a>, N: usize = 14; DCowS: SCowS<'a>; DRefS: SRefS<'a>, STREAM: bool = false; DRefB: SRefB<'a>, STREAM: bool = false;
    DMany: SMany, N: usize = 14, CANON: bool = false; DColl: SColl, N: usize = 12, CANON: bool = false; DArr: SArr, N: usize = 10, CANON: bool = false; DArrGen: SArrGen<u16>, N: usize = 5; DArrGenStr: SArrGen<String>, N: usize = 10;
    DOpts: SOpts, N: usize = 10, CANON: bool = false; DFloat: SFloat, N: usize = 13; DWide: SWide, N: usize = 41; DNest: SNest, N: usize = 22; DBool: SBool, N: usize = 5, CANON: bool = false; DChar: SChar, N: usize = 9; DBox: SBox, N: usize = 12;
    DVecPlain: Vec<SPlain>, N: usize = 13; DVecNew: Vec<SNew>; DVecUnit: Vec<SUnit>, N: usize = 5; DVecBool: Vec<SBool>, N: usize = 9, CANON: bool = false; DVecGen: Vec<SGen<u32>>, N: usize = 9; DOptPlain: Option<SPlain>, N: usize = 9, CANON: bool = false;
    DRec: SRec, N: usize = 12; DERecV: ERecV, N: usize = 8, CANON: bool = false; DMutA: SMutA, N: usize = 11; DMutB: EMutB, N: usize = 7;
    HSk: HSkip, N: usize = 6, CANON: bool = false; HPk: HPeek, N: usize = 15, CANON: bool = false; HMn: HMany, N: usize = 9, CANON: bool = false; HBk: HBack<'a>, N: usize = 7; HRs: HRest, N: usize = 6, CANON: bool = false, EXACT: bool = false;
    DPPrim: PPrim, N: usize = 9; DPDesc: PDesc, N: usize = 5; DPReord: PReord, N: usize = 5; DPReord4: PReord4, N: usize = 9; DPFive: PFive, N: usize = 11; DPNest: PNest, N: usize = 13; DPArr: PArr, N: usize = 9; DPEndianMix: PEndianMix, N: usize = 17;
    DPC: PC, N: usize = 5; DPCPad: PCPad, N: usize = 4; DPCTail: PCTail, N: usize = 4; DPCNest: PCNest, N: usize = 9; DPCGen: PCGen<u16>, N: usize = 5; DPCFloat: PCFloat, N: usize = 9; DPCBool: PCBool, N: usize = 3, CANON: bool = false;
    DPTrans: PTrans, N: usize = 3; DPTransU8: PTransU8, N: usize = 2; DPTransBool: PTransBool, N: usize = 2, CANON: bool = false; DPTransVec: PTransVec, N: usize = 7; DPTransNest: PTransNest, N: usize = 5; DPTransArr: PTransArr, N: usize = 5;
    DPPacked: PPacked, N: usize = 5; DPPackedC: PPackedC, N: usize = 8; DPPackedNest: PPackedNest, N: usize = 13; DPPackedBool: PPackedBool, N: usize = 4, CANON: bool = false; DPForced: PForced, N: usize = 9;
    DVPPrim: Vec<PPrim>, N: usize = 13; DVPDesc: Vec<PDesc>, N: usize = 9; DVPReord: Vec<PReord>, N: usize = 9; DVPReord4: Vec<PReord4>, N: usize = 13; DVPFive: Vec<PFive>, N: usize = 15; DVPNest: Vec<PNest>, N: usize = 17; DVPArr: Vec<PArr>, N: usize = 13; DVPEndianMix: Vec<PEndianMix>, N: usize = 21;
    DVPC: Vec<PC>, N: usize = 9; DVPCPad: Vec<PCPad>, N: usize = 8; DVPCTail: Vec<PCTail>, N: usize = 8; DVPCNest: Vec<PCNest>, N: usize = 13; DVPCGen: Vec<PCGen<u16>>, N: usize = 9; DVPCFloat: Vec<PCFloat>, N: usize = 13; DVPCBool: Vec<PCBool>, N: usize = 7, CANON: bool = false;
    DVPTrans: Vec<PTrans>, N: usize = 7; DVPTransU8: Vec<PTransU8>, N: usize = 6; DVPTransBool: Vec<PTransBool>, N: usize = 6, CANON: bool = false; DVPTransVec: Vec<PTransVec>, N: usize = 11; DVPTransNest: Vec<PTransNest>, N: usize = 9; DVPTransArr: Vec<PTransArr>, N: usize = 9;
    DVPPacked: Vec<PPacked>, N: usize = 9; DVPPackedC: Vec<PPackedC>, N: usize = 12; DVPPackedNest: Vec<PPackedNest>, N: usize = 17; DVPPackedBool: Vec<PPackedBool>, N: usize = 8, CANON: bool = false; DVPForced: Vec<PForced>, N: usize = 13;
    DCwPPrim: Cow<'a, [PPrim]>, N: usize = 13; DCwPReord: Cow<'a, [PReord]>, N: usize = 9; DCwPC: Cow<'a, [PC]>, N: usize = 9; DCwPCPad: Cow<'a, [PCPad]>, N: usize = 8; DCwPTrans: Cow<'a, [PTrans]>, N: usize = 7; DCwPPacked: Cow<'a, [PPacked]>, N: usize = 9; DCwPPackedC: Cow<'a, [PPackedC]>, N: usize = 12; DCwPPackedBool: Cow<'a, [PPackedBool]>, N: usize = 8, CANON: bool = false; DCwPForced: Cow<'a, [PForced]>, N: usize = 13; DCwPTransNest: Cow<'a, [PTransNest]>, N: usize = 9;
    DArPPrim: [PPrim; 2], N: usize = 17; DArPReord: [PReord; 2], N: usize = 9; DArPC: [PC; 2], N: usize = 9; DArPTrans: [PTrans; 2], N: usize = 5; DArPPackedC: [PPackedC; 2], N: usize = 15; DArPPackedBool: [PPackedBool; 2], CANON: bool = false, N: usize = 7; DArPNest: [PNest; 2], N: usize = 25;
    DEU7: EU7; DEU8: EU8; DEU16: EU16; DEU32: EU32; DEU64: EU64, N: usize = 9; DEVar: EVar, N: usize = 10, CANON: bool = false; DEAuto: EAuto; DEData: EData, N: usize = 14; DETag: ETag, N: usize = 7; DERec: ERec; DEGen: EGen<'a, u32>, N: usize = 9;
    DEPeek8: EPeek8, N: usize = 4; DEPeek16: EPeek16, N: usize = 5; DEPeek32: EPeek32, N: usize = 7; DEPeek64: EPeek64, N: usize = 11; DEPeek7: EPeek7, N: usize = 4; DEPeekV: EPeekV, N: usize = 12, CANON: bool = false;
    DVecEAuto: Vec<EAuto>, N: usize = 13; DVecEData: Vec<EData>, N: usize = 16; DOptE: Option<EU8>, N: usize = 3, CANON: bool = false;
    DXVec: XVec, N: usize = 9; DXStr: XStr, N: usize = 7; DXBools: XBools, N: usize = 7, CANON: bool = false; DXCow: XCow<'a>, N: usize = 12; DXCowStr: XCowStr<'a>, N: usize = 7; DXRef: XRef<'a>, N: usize = 7, STREAM: bool = false; DXRefStr: XRefStr<'a>, N: usize = 7, STREAM: bool = false;
    DXBMap: XBMap, N: usize = 10, CANON: bool = false, LOSSY: bool = true; DXBSet: XBSet, N: usize = 8, CANON: bool = false, LOSSY: bool = true; DXCowBMap: XCowBMap<'a>, N: usize = 10, CANON: bool = false, LOSSY: bool = true; DXCowBSet: XCowBSet<'a>, N: usize = 8, CANON: bool = false, LOSSY: bool = true; DXTup: XTup, N: usize = 9;
    DXHMap: XHMap, ORDERED: bool = false, CANON: bool = false; DXHSet: XHSet, ORDERED: bool = false, CANON: bool = false;
    DUVec: UVec, N: usize = 7, CANON: bool = false, EXACT: bool = false; DUBytes: UBytes, N: usize = 6, EXACT: bool = false; DUBools: UBools, N: usize = 6, EXACT: bool = false, CANON: bool = false; DUStr: UStr, N: usize = 6, EXACT: bool = false; DUCow: UCow<'a>, N: usize = 6, CANON: bool = false, EXACT: bool = false; DUCowB: UCowB<'a>, N: usize = 6, EXACT: bool = false; DUCowStr: UCowStr<'a>, N: usize = 6, EXACT: bool = false; DURef: URef<'a>, N: usize = 6, STREAM: bool = false, EXACT: bool = false; DURefStr: URefStr<'a>, N: usize = 6, STREAM: bool = false, EXACT: bool = false;
    DUBMap: UBMap, N: usize = 9, CANON: bool = false, EXACT: bool = false; DUBSet: UBSet, N: usize = 7, CANON: bool = false, EXACT: bool = false; DUHSet: UHSet, ORDERED: bool = false, CANON: bool = false, EXACT: bool = false; DUCowBSet: UCowBSet<'a>, N: usize = 7, CANON: bool = false, EXACT: bool = false;
    DVarint: AVarint, N: usize = 13, CANON: bool = false; DVarintOpt: AVarintOpt, N: usize = 12, CANON: bool = false; DSkip: ASkip, N: usize = 4; DDefEof: ADefEof, CUT: bool = true, N: usize = 8, CANON: bool = false, EXACT: bool = false; DDefEofVec: ADefEofVec, CUT: bool = true, N: usize = 12, CANON: bool = false, EXACT: bool = false;
    DDefPfx: ADefPfx, CUT: bool = true, N: usize = 6, CANON: bool = false, EXACT: bool = false; DDefMore: ADefMore, CUT: bool = true, N: usize = 9, CANON: bool = false, EXACT: bool = false; DEDefEof: EDefEof, CUT: bool = true, N: usize = 8, CANON: bool = false, EXACT: bool = false; DVecDef: Vec<ADefEof>, CUT: bool = true, N: usize = 9, CANON: bool = false, EXACT: bool = false;
    DCStr: CStr, N: usize = 8; DCUtf: CUtf, N: usize = 9; DCBytes: CBytes, N: usize = 8; DCChar: CChar, N: usize = 8; DCByte: CByte, N: usize = 6; DCTrue: CTrue, N: usize = 6; DCFalse: CFalse, N: usize = 6; DCU8: CU8, N: usize = 6; DCU8b: CU8b, N: usize = 6; DCEmpty: CEmpty, N: usize = 5; DCI8: CI8, N: usize = 6; DCUnit: CUnit, N: usize = 10; DCOpt: COpt, N: usize = 7, CANON: bool = false;
}
fam! {
    QTi: QTransIn, N: usize = 5; QTs: QTransSimple, N: usize = 9; QTp: QTransPfx, N: usize = 4; QTv: QTransVar, N: usize = 10, CANON: bool = false; QTk: QTransSkip, N: usize = 2; QPp: QPackPfx, N: usize = 4;
    QCp: QCPfx, N: usize = 7; QCs: QCSkip, N: usize = 3; QCv: QCVar, N: usize = 12, CANON: bool = false; QCe: QCEof, N: usize = 5, CANON: bool = false, EXACT: bool = false; QZp: QZstPfx, N: usize = 3; QEm: QEmpty, N: usize = 1;
    QVTi: Vec<QTransIn>, N: usize = 9; QVTs: Vec<QTransSimple>, N: usize = 13; QVTp: Vec<QTransPfx>, N: usize = 8; QVTv: Vec<QTransVar>, N: usize = 7, CANON: bool = false; QVTk: Vec<QTransSkip>; QVPp: Vec<QPackPfx>, N: usize = 8;
    QVCp: Vec<QCPfx>, N: usize = 11; QVCs: Vec<QCSkip>, N: usize = 7; QVCv: Vec<QCVar>, N: usize = 14, CANON: bool = false; QVZp: Vec<QZstPfx>, N: usize = 9; QVEm: Vec<QEmpty>;
    QATi: [QTransIn; 2], N: usize = 9; QATp: [QTransPfx; 2], N: usize = 7; QAPp: [QPackPfx; 2], N: usize = 7; QACp: [QCPfx; 2], N: usize = 13; QAZp: [QZstPfx; 2], N: usize = 5;
    QWTi: Cow<'a, [QTransIn]>, N: usize = 9; QWTp: Cow<'a, [QTransPfx]>, N: usize = 8; QWPp: Cow<'a, [QPackPfx]>, N: usize = 8; QWZp: Cow<'a, [QZstPfx]>, N: usize = 9; QWEm: Cow<'a, [QEmpty]>;
    QSEm: BTreeSet<QEmpty>; QMEm: BTreeMap<QEmpty, u8>, N: usize = 7, CANON: bool = false; QME2: BTreeMap<QEmpty, QEmpty>;
}
macro_rules! len_fams { ($($m:ident $w:literal: $vec:ident $str:ident $cow:ident $cs:ident $r:ident $rs:ident $bm:ident $bs:ident $cbm:ident $cbs:ident $ov:ident $os:ident $hm:ident $hs:ident $chm:ident $chs:ident $canon:literal;)*) => {
    fam! { $(
        $vec: $m::LVec, N: usize = $w + 6, CANON: bool = $canon; $str: $m::LStr, N: usize = $w + 5, CANON: bool = $canon; $cow: $m::LCow<'a>, N: usize = $w + 6, CANON: bool = $canon; $cs: $m::LCowStr<'a>, N: usize = $w + 5, CANON: bool = $canon;
        $r: $m::LRef<'a>, N: usize = $w + 4, CANON: bool = $canon, STREAM: bool = false; $rs: $m::LRefStr<'a>, N: usize = $w + 4, CANON: bool = $canon, STREAM: bool = false;
        $bm: $m::LBMap, N: usize = $w + 8, CANON: bool = false; $bs: $m::LBSet, N: usize = $w + 6, CANON: bool = false; $cbm: $m::LCowBMap<'a>, N: usize = $w + 8, CANON: bool = false; $cbs: $m::LCowBSet<'a>, N: usize = $w + 6, CANON: bool = false;
        $ov: $m::LOptVec, N: usize = $w + 7, CANON: bool = false; $os: $m::LOptStr, N: usize = $w + 5, CANON: bool = false;
        $hm: $m::LHMap, ORDERED: bool = false, CANON: bool = false; $hs: $m::LHSet, ORDERED: bool = false, CANON: bool = false; $chm: $m::LCowHMap<'a>, ORDERED: bool = false, CANON: bool = false; $chs: $m::LCowHSet<'a>, ORDERED: bool = false, CANON: bool = false;
    )* }
} }
len_fams! {
    l7 1: D7Vec D7Str D7Cow D7CowStr D7Ref D7RefStr D7BMap D7BSet D7CowBMap D7CowBSet D7OptVec D7OptStr D7HMap D7HSet D7CowHMap D7CowHSet true;
    l8 1: D8Vec D8Str D8Cow D8CowStr D8Ref D8RefStr D8BMap D8BSet D8CowBMap D8CowBSet D8OptVec D8OptStr D8HMap D8HSet D8CowHMap D8CowHSet true;
    l16 2: D16Vec D16Str D16Cow D16CowStr D16Ref D16RefStr D16BMap D16BSet D16CowBMap D16CowBSet D16OptVec D16OptStr D16HMap D16HSet D16CowHMap D16CowHSet true;
    l32 4: D32Vec D32Str D32Cow D32CowStr D32Ref D32RefStr D32BMap D32BSet D32CowBMap D32CowBSet D32OptVec D32OptStr D32HMap D32HSet D32CowHMap D32CowHSet true;
    l64 8: D64Vec D64Str D64Cow D64CowStr D64Ref D64RefStr D64BMap D64BSet D64CowBMap D64CowBSet D64OptVec D64OptStr D64HMap D64HSet D64CowHMap D64CowHSet true;
    lv 0: DvVec DvStr DvCow DvCowStr DvRef DvRefStr DvBMap DvBSet DvCowBMap DvCowBSet DvOptVec DvOptStr DvHMap DvHSet DvCowHMap DvCowHSet false;
}
/// derived types that may be fed arbitrary bytes
#[macro_export]
macro_rules! dt_catalog {
    ($m:ident, $f:ident) => { $crate::$m! { $f;
        DPlain DTuple DUnit DEmpty DNew DGenU16 DGenVec DGenDef DPairMix DGenRef DGenCow DCowB DCowW DCowS DRefS DRefB DMany DColl DArr DArrGen DArrGenStr DOpts DFloat DWide DNest DBool DChar DBox
        DVecPlain DVecNew DVecBool DVecGen DOptPlain DRec
        DPPrim DPDesc DPReord DPReord4 DPFive DPNest DPArr DPEndianMix DPC DPCPad DPCTail DPCNest DPCGen DPCFloat DPCBool DPTrans DPTransU8 DPTransBool DPTransVec DPTransNest DPTransArr DPPacked DPPackedC DPPackedNest DPPackedBool DPForced
        DVPPrim DVPDesc DVPReord DVPReord4 DVPFive DVPNest DVPArr DVPEndianMix DVPC DVPCPad DVPCTail DVPCNest DVPCGen DVPCFloat DVPCBool DVPTrans DVPTransU8 DVPTransBool DVPTransVec DVPTransNest DVPTransArr DVPPacked DVPPackedC DVPPackedNest DVPPackedBool DVPForced
        DCwPPrim DCwPReord DCwPC DCwPCPad DCwPTrans DCwPPacked DCwPPackedC DCwPPackedBool DCwPForced DCwPTransNest
        DArPPrim DArPReord DArPC DArPTrans DArPPackedC DArPPackedBool DArPNest
        QTi QTs QTp QTv QTk QPp QCp QCs QCv QCe QZp QEm QVTi QVTs QVTp QVTv QVPp QVCp QVCs QVCv QVZp QATi QATp QAPp QACp QAZp QWTi QWTp QWPp QWZp QMEm
        DEU7 DEU8 DEU16 DEU32 DEU64 DEVar DEAuto DEData DETag DERec DERecV DMutA DMutB DEGen DEPeek8 DEPeek16 DEPeek32 DEPeek64 DEPeek7 DEPeekV DVecEAuto DVecEData DOptE
        HSk HPk HMn HBk HRs
        DXVec DXStr DXBools DXCow DXCowStr DXRef DXRefStr DXBMap DXBSet DXCowBMap DXCowBSet DXTup
        DUVec DUBytes DUBools DUStr DUCow DUCowB DUCowStr DURef DURefStr DUBMap DUBSet DUCowBSet
        DVarint DVarintOpt DSkip DDefEof DDefEofVec DDefPfx DDefMore DEDefEof DVecDef DCStr DCUtf DCBytes DCChar DCByte DCTrue DCFalse DCU8 DCU8b DCEmpty DCI8 DCUnit DCOpt
        D7Vec D7Str D7Cow D7CowStr D7Ref D7RefStr D7BMap D7BSet D7CowBMap D7CowBSet D7OptVec D7OptStr
        D8Vec D8Str D8Cow D8CowStr D8Ref D8RefStr D8BMap D8BSet D8CowBMap D8CowBSet D8OptVec D8OptStr
        D16Vec D16Str D16Cow D16CowStr D16Ref D16RefStr D16BMap D16BSet D16CowBMap D16CowBSet D16OptVec D16OptStr
        D32Vec D32Str D32Cow D32CowStr D32Ref D32RefStr D32BMap D32BSet D32CowBMap D32CowBSet D32OptVec D32OptStr
        D64Vec D64Str D64Cow D64CowStr D64Ref D64RefStr D64BMap D64BSet D64CowBMap D64CowBSet D64OptVec D64OptStr
        DvVec DvStr DvCow DvCowStr DvRef DvRefStr DvBMap DvBSet DvCowBMap DvCowBSet DvOptVec DvOptStr
    } };
}
/// types of which only values are generated: reading arbitrary bytes would have no bound, or they are
/// hashed with the standard library's default hasher: only with keys that are concrete on every path
#[macro_export]
macro_rules! gen_catalog {
    ($m:ident, $f:ident) => { $crate::$m! { $f;
        DVecUnit QVEm QVTk QWEm QSEm QME2 DXHMap DXHSet DUHSet D7HMap D7HSet D7CowHMap D7CowHSet D8HMap D8HSet D8CowHMap D8CowHSet D16HMap D16HSet D16CowHMap D16CowHSet
        D32HMap D32HSet D32CowHMap D32CowHSet D64HMap D64HSet D64CowHMap D64CowHSet DvHMap DvHSet DvCowHMap DvCowHSet
    } };
}
