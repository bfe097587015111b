//! Specification fragments: what each part of a telegram means, written as
//! functions of the symbolic input.  A fragment is a list of disjoint
//! alternatives, each with the condition under which it applies (including that
//! enough input is present), the offset after it, and the expected value.
use crate::bdd::*;
use crate::int::*;
use crate::spec::*;
use crate::sym::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Alt {
    pub g: B,
    pub end: usize,
    pub e: Exp,
}
pub fn alt(g: B, end: usize, e: Exp) -> Alt {
    Alt { g, end, e }
}
/// turn alternatives into a specification of a whole parse
pub fn whole(alts: Vec<Alt>) -> Spec {
    let ok = or_all(alts.iter().map(|a| a.g));
    let mut used = Int::usize(0);
    for a in &alts {
        used = Int::ite(a.g, &Int::usize(a.end as u64), &used);
    }
    let val = if alts.len() == 1 { alts[0].e.clone() } else { Exp::Cond(alts.iter().map(|a| (a.g, a.e.clone())).collect()) };
    Spec { pre: T, ok, val, used: Some(used), ctx: false }
}
/// a fixed-size piece at offset `o`
pub struct Piece {
    pub ok: B,
    pub len: usize,
    pub e: Exp,
}
impl Piece {
    pub fn at(self, s: &Sym, o: usize, g: B) -> Vec<Alt> {
        if o + self.len > s.n {
            return vec![];
        }
        vec![Alt { g: and(g, and(self.ok, s.at_least(o + self.len))), end: o + self.len, e: self.e }]
    }
}

pub fn u8c(v: u128) -> Exp {
    Exp::Int(Int::c(v, 8, false))
}
fn any_of(i: &Int, lo: u128, hi: u128, extra: &[u128]) -> B {
    let mut g = crate::models::in_range(i, lo, hi).unwrap();
    for x in extra {
        g = or(g, i.eq(&Int::c(*x, i.w, i.s)).unwrap());
    }
    g
}

// ---- dates ------------------------------------------------------------------
pub struct Dmy {
    pub ok: B,
    pub day: Int,
    pub month: Int,
    pub year: Int,
}
/// day, month and year packed in the two bytes at `o`
pub fn dmy(s: &Sym, o: usize) -> Dmy {
    let day = s.field(o, 4, 0, 8, false);
    let month = s.field(o + 1, 3, 0, 8, false);
    let mut y: Vec<B> = (5..8).map(|k| s.bit(o, k)).collect();
    y.extend((4..8).map(|k| s.bit(o + 1, k)));
    y.push(F);
    let year = Int::bits(y, false);
    let not_ff = not(and(s.is(o, 0xFF), s.is(o + 1, 0xFF)));
    let ok = and(not_ff, and(any_of(&month, 0, 12, &[15]), any_of(&year, 0, 99, &[127])));
    Dmy { ok, day, month, year }
}
fn need(s: &Sym, o: usize, n: usize) -> bool {
    o + n <= s.n
}
fn no(len: usize) -> Piece {
    Piece { ok: F, len, e: Exp::Any }
}
pub fn date_g(s: &Sym, o: usize) -> Piece {
    if !need(s, o, 2) {
        return no(2);
    }
    let d = dmy(s, o);
    Piece { ok: d.ok, len: 2, e: st(vec![("day", int(d.day)), ("month", int(d.month)), ("year", int(d.year))]) }
}
pub fn date_f(s: &Sym, o: usize) -> Piece {
    if !need(s, o, 4) {
        return no(4);
    }
    let d = dmy(s, o + 2);
    let minute = s.field(o, 5, 0, 8, false);
    let hour = s.field(o + 1, 4, 0, 8, false);
    let ok = and_all([not(s.bit(o, 7)), not(s.bit(o, 6)), any_of(&minute, 0, 59, &[63]), any_of(&hour, 0, 23, &[31]), d.ok]);
    let hy = s.field(o + 1, 6, 5, 8, false);
    let old = and(hy.eq(&Int::c(0, 8, false)).unwrap(), crate::models::in_range(&d.year, 0, 80).unwrap());
    let hy = Int::ite(old, &Int::c(1, 8, false), &hy);
    Piece {
        ok,
        len: 4,
        e: st(vec![
            ("minute", int(minute)),
            ("hour", int(hour)),
            ("day", int(d.day)),
            ("month", int(d.month)),
            ("year", int(d.year)),
            ("hundred_year", int(hy)),
            ("in_dst", boolean(s.bit(o + 1, 7))),
        ]),
    }
}
/// sign (set: positive) and a two-bit magnitude
fn signed2(plus: B, lo: B, hi: B) -> Int {
    let m = not(plus);
    Int::sum(0, vec![(and(plus, lo), 1), (and(plus, hi), 2), (and(m, lo), -1), (and(m, hi), -2)], 8, true)
}
pub fn date_i(s: &Sym, o: usize) -> Piece {
    if !need(s, o, 6) {
        return no(6);
    }
    let d = dmy(s, o + 3);
    let second = s.field(o, 5, 0, 8, false);
    let minute = s.field(o + 1, 5, 0, 8, false);
    let hour = s.field(o + 2, 4, 0, 8, false);
    let week = s.field(o + 5, 5, 0, 8, false);
    let ok = and_all([
        any_of(&second, 0, 59, &[63]),
        not(s.bit(o + 1, 7)),
        any_of(&minute, 0, 59, &[63]),
        any_of(&hour, 0, 23, &[31]),
        d.ok,
        any_of(&week, 0, 53, &[]),
    ]);
    Piece {
        ok,
        len: 6,
        e: st(vec![
            ("second", int(second)),
            ("minute", int(minute)),
            ("hour", int(hour)),
            ("day", int(d.day)),
            ("month", int(d.month)),
            ("year", int(d.year)),
            ("day_of_week", int(s.field(o + 2, 7, 5, 8, false))),
            ("week", int(week)),
            ("in_dst", boolean(s.bit(o, 6))),
            ("leap_year", boolean(s.bit(o, 7))),
            ("dst_offset", int(signed2(s.bit(o + 1, 6), s.bit(o + 5, 6), s.bit(o + 5, 7)))),
        ]),
    }
}
pub fn time_j(s: &Sym, o: usize) -> Piece {
    if !need(s, o, 3) {
        return no(3);
    }
    let second = s.field(o, 5, 0, 8, false);
    let minute = s.field(o + 1, 5, 0, 8, false);
    let hour = s.field(o + 2, 4, 0, 8, false);
    let zero = and_all([(0, 6), (0, 7), (1, 6), (1, 7), (2, 5), (2, 6), (2, 7)].map(|(i, k)| not(s.bit(o + i, k))));
    let ok = and_all([zero, any_of(&second, 0, 59, &[63]), any_of(&minute, 0, 59, &[63]), any_of(&hour, 0, 23, &[31])]);
    Piece { ok, len: 3, e: st(vec![("second", int(second)), ("minute", int(minute)), ("hour", int(hour))]) }
}
pub fn dst_k(s: &Sym, o: usize) -> Piece {
    if !need(s, o, 4) {
        return no(4);
    }
    let start_hour = s.field(o, 4, 0, 8, false);
    let start_day = s.field(o + 1, 4, 0, 8, false);
    let end_day = s.field(o + 2, 4, 0, 8, false);
    let end_month = s.field(o + 3, 7, 4, 8, false);
    let start_month = s.field(o + 3, 3, 0, 8, false);
    let mut dev: Vec<B> = (5..8).map(|k| s.bit(o, k)).collect();
    dev.extend((5..7).map(|k| s.bit(o + 1, k)));
    dev.resize(8, F);
    let dev = Int::bits(dev, false);
    let ok = and_all([
        any_of(&start_hour, 0, 23, &[31]),
        any_of(&start_day, 1, 31, &[]),
        any_of(&end_day, 1, 31, &[]),
        any_of(&end_month, 1, 12, &[]),
        any_of(&start_month, 1, 12, &[]),
        any_of(&dev, 0, 23, &[31]),
    ]);
    Piece {
        ok,
        len: 4,
        e: st(vec![
            ("starts_hour", int(start_hour)),
            ("starts_day", int(start_day)),
            ("starts_month", int(start_month)),
            ("ends_day", int(end_day)),
            ("ends_month", int(end_month)),
            ("enable", boolean(s.bit(o + 1, 7))),
            ("dst_deviation", int(signed2(s.bit(o + 2, 7), s.bit(o + 2, 5), s.bit(o + 2, 6)))),
            ("local_deviation", int(dev)),
        ]),
    }
}

// ---- numbers ----------------------------------------------------------------
/// two's complement / unsigned little-endian integer of `n` bytes
pub fn integer(s: &Sym, o: usize, n: usize, signed: bool) -> Piece {
    if !need(s, o, n) {
        return no(n);
    }
    Piece { ok: T, len: n, e: int(if n == 0 { Int::c(0, 64, signed) } else { s.le(o, n, 64, signed) }) }
}
pub struct Bcd {
    pub ok: B,
    pub neg: B,
    pub mag: Vec<(B, i128)>,
}
pub fn bcd_parts(s: &Sym, o: usize, n: usize) -> Bcd {
    let mut ok = T;
    let mut mag = vec![];
    let mut neg = F;
    let mut w: i128 = 1;
    for i in 0..n {
        for (half, lo) in [(0, 0), (1, 4)] {
            let d = s.field(o + i, lo + 3, lo, 8, false);
            let dec = crate::models::in_range(&d, 0, 9).unwrap();
            let mut keep = T;
            if i == n - 1 && half == 1 {
                neg = d.eq(&Int::c(15, 8, false)).unwrap();
                ok = and(ok, or(dec, neg));
                keep = not(neg);
            } else {
                ok = and(ok, dec);
            }
            for k in 0..4 {
                mag.push((and(keep, s.bit(o + i, lo + k)), w << k));
            }
            w *= 10;
        }
    }
    Bcd { ok, neg, mag }
}
pub fn bcd(s: &Sym, o: usize, n: usize) -> Piece {
    if !need(s, o, n) {
        return no(n);
    }
    let b = bcd_parts(s, o, n);
    let pos = Int::sum(0, b.mag.clone(), 64, true);
    let neg = Int::sum(0, b.mag.iter().map(|x| (x.0, -x.1)).collect(), 64, true);
    Piece { ok: b.ok, len: n, e: Exp::Cond(vec![(b.neg, int(neg)), (not(b.neg), int(pos))]) }
}
/// hexadecimal rendering of a malformed BCD number, most significant byte first
pub fn invalid_bcd(s: &Sym, o: usize, n: usize) -> Piece {
    if !need(s, o, n) {
        return no(n);
    }
    let mut chars = vec![];
    for i in (0..n).rev() {
        for (half, lo) in [(1, 4), (0, 0)] {
            let d = s.field(o + i, lo + 3, lo, 32, false);
            let dash = i == n - 1 && half == 1;
            chars.push(
                Int::map1(&d, 32, false, |v| match v {
                    0..=9 => b'0' as u128 + v,
                    15 if dash => '-' as u128,
                    _ => 'A' as u128 + v - 10,
                })
                .unwrap(),
            );
        }
    }
    Piece { ok: T, len: n, e: text(chars) }
}
pub fn real(s: &Sym, o: usize) -> Piece {
    if !need(s, o, 4) {
        return no(4);
    }
    Piece { ok: T, len: 4, e: int(s.le(o, 4, 32, false)) }
}
pub fn text(chars: Vec<Int>) -> Exp {
    Exp::Text(Rc::new(move |n| (if n == chars.len() { T } else { F }, if n == chars.len() { chars.clone() } else { vec![Int::c(0, 32, false); n] })))
}
/// bytes `o..o+n` as Windows-1252 text in reverse order
pub fn latin1(s: &Sym, o: usize, n: usize) -> Piece {
    if !need(s, o, n) {
        return no(n);
    }
    let chars = (o..o + n).rev().map(|i| Int::map1(&s.bytes[i].cast(32, false).unwrap(), 32, false, crate::models::cp1252).unwrap()).collect();
    Piece { ok: T, len: n, e: text(chars) }
}
/// raw bytes
pub fn raw(s: &Sym, o: usize, n: usize) -> Piece {
    if !need(s, o, n) {
        return no(n);
    }
    Piece { ok: T, len: n, e: seq((o..o + n).map(|i| int(s.bytes[i].clone())).collect()) }
}
/// length byte at `o`, then that many bytes of UTF-8 in reverse order
pub fn plain_text(s: &Sym, o: usize, g: B) -> Vec<Alt> {
    let mut out = vec![];
    for l in 0..=255usize {
        if o + 1 + l > s.n {
            break;
        }
        let gl = and(g, and(s.is(o, l as u128), s.at_least(o + 1 + l)));
        if gl == F {
            continue;
        }
        let cases = crate::models::utf8_cases(&s.bytes[o + 1..o + 1 + l], gl).unwrap();
        let ok = or_all(cases.iter().map(|c| c.0));
        let cases = Rc::new(cases);
        let e = Exp::Text(Rc::new(move |n| {
            let mut g = F;
            let mut cs = vec![Int::c(0, 32, false); n];
            for (h, c) in cases.iter().filter(|c| c.1.len() == n) {
                for (i, x) in c.iter().rev().enumerate() {
                    cs[i] = Int::ite(*h, x, &cs[i]);
                }
                g = or(g, *h);
            }
            (g, cs)
        }));
        out.push(alt(ok, o + 1 + l, e));
    }
    out
}

// ---- data information block -------------------------------------------------
pub fn raw_type(s: &Sym, o: usize) -> Vec<Var> {
    let t = s.field(o, 3, 0, 8, false);
    let is = |v: u128| t.eq(&Int::c(v, 8, false)).unwrap();
    let n = |v: u64| int(Int::usize(v));
    vec![
        var(is(0), "None"),
        var1(is(1), "Binary", n(1)),
        var1(is(2), "Binary", n(2)),
        var1(is(3), "Binary", n(3)),
        var1(is(4), "Binary", n(4)),
        var(is(5), "Real"),
        var1(is(6), "Binary", n(6)),
        var1(is(7), "Binary", n(8)),
        var1(is(9), "BCD", n(1)),
        var1(is(10), "BCD", n(2)),
        var1(is(11), "BCD", n(3)),
        var1(is(12), "BCD", n(4)),
        var(is(13), "LVAR"),
        var1(is(14), "BCD", n(6)),
    ]
}
pub fn dif_nibble(s: &Sym, o: usize, v: u128) -> B {
    s.field(o, 3, 0, 8, false).eq(&Int::c(v, 8, false)).unwrap()
}
pub fn dib(s: &Sym, o: usize, g: B) -> Vec<Alt> {
    let mut out = vec![];
    if o >= s.n {
        return out;
    }
    let ty = raw_type(s, o);
    let ty_ok = or_all(ty.iter().map(|v| v.g));
    let func = s.field(o, 5, 4, 8, false);
    let fv = |v: u128, n: &str| var(func.eq(&Int::c(v, 8, false)).unwrap(), n);
    let function = en(vec![fv(0, "InstantaneousValue"), fv(1, "MaximumValue"), fv(2, "MinimumValue"), fv(3, "ValueDuringErrorState")]);
    let mut storage = vec![F; 64];
    storage[0] = s.bit(o, 6);
    let mut tariff = vec![F; 32];
    let mut device = vec![F; 16];
    let mut chain = and(g, ty_ok);
    for k in 0..=10usize {
        let last = o + k;
        if last >= s.n {
            break;
        }
        if k > 0 {
            // byte `last` is DIFE number k
            chain = and(chain, s.bit(last - 1, 7));
            for b in 0..4 {
                storage[1 + 4 * (k - 1) + b] = s.bit(last, b);
            }
            for b in 0..2 {
                tariff[2 * (k - 1) + b] = s.bit(last, 4 + b);
            }
            device[k - 1] = s.bit(last, 6);
        }
        let here = and_all([chain, not(s.bit(last, 7)), s.at_least(last + 1)]);
        let obis = if k > 0 { s.is(last, 0) } else { F };
        out.push(alt(
            here,
            last + 1,
            st(vec![
                ("raw_type", en(ty.clone())),
                ("function", function.clone()),
                ("storage", int(Int::bits(storage.clone(), false))),
                ("tariff", int(Int::bits(tariff.clone(), false))),
                ("device", int(Int::bits(device.clone(), false))),
                ("is_obis", boolean(obis)),
            ]),
        ));
    }
    out
}

// ---- value information block ------------------------------------------------
#[derive(Clone, Copy)]
pub enum A {
    U,
    /// exponent offset
    E(i128),
    /// unit, exponent offset
    UE(&'static str, i128),
    /// duration in seconds..days / hours..years / fixed
    Nn,
    Pp,
    D(&'static str),
    /// retired code of a table
    Ret(&'static str),
    /// not specified here (any value allowed)
    Free,
}
use A::*;
pub type Row = (&'static str, &'static str, A);
pub const TABLE_10: &[Row] = &[
    ("0000nnn", "Energy", UE("Wh", -3)),
    ("0001nnn", "Energy", UE("J", 0)),
    ("0010nnn", "Volume", UE("M3", -6)),
    ("0011nnn", "Mass", UE("Kg", -3)),
    ("01000nn", "OnTime", Nn),
    ("01001nn", "OperatingTime", Nn),
    ("0101nnn", "Power", UE("W", -3)),
    ("0110nnn", "Power", UE("Jph", 0)),
    ("0111nnn", "VolumeFlow", UE("Hours", -6)),
    ("1000nnn", "VolumeFlow", UE("Minutes", -7)),
    ("1001nnn", "VolumeFlow", UE("Seconds", -9)),
    ("1010nnn", "MassFlow", UE("Hours", -3)),
    ("10110nn", "FlowTemperature", E(-3)),
    ("10111nn", "ReturnTemperature", E(-3)),
    ("11000nn", "TemperatureDifference", E(-3)),
    ("11001nn", "ExternalTemperature", E(-3)),
    ("11010nn", "Pressure", E(-3)),
    ("1101100", "TypeGDate", U),
    ("1101101", "VariableDateTime", U),
    ("1101110", "HCA", U),
    ("11100nn", "AveragingDuration", Nn),
    ("11101nn", "ActualityDuration", Nn),
    ("1111000", "FabricationNumber", U),
    ("1111001", "EnhancedIdentification", U),
    ("1111010", "Address", U),
];
pub const TABLE_12: &[Row] = &[
    ("00000nn", "Credit", E(-3)),
    ("00001nn", "Debit", E(-3)),
    ("0001000", "UniqueMessageIdentification", U),
    ("0001001", "DeviceType", U),
    ("0001010", "Manufacturer", U),
    ("0001011", "ParameterSetIdentification", U),
    ("0001100", "ModelVersion", U),
    ("0001101", "HardwareVersionNumber", U),
    ("0001110", "MetrologyFirmwareVersionNumber", U),
    ("0001111", "OtherSoftwareVersionNumber", U),
    ("0010000", "CustomerLocation", U),
    ("0010001", "Customer", U),
    ("0010010", "AccessCodeUser", U),
    ("0010011", "AccessCodeOperator", U),
    ("0010100", "AccessCodeSystemOperator", U),
    ("0010101", "AccessCodeDeveloper", U),
    ("0010110", "Password", U),
    ("0010111", "ErrorFlags", U),
    ("0011000", "ErrorMask", U),
    ("0011001", "SecurityKey", U),
    ("0011010", "DigitalOutput", U),
    ("0011011", "DigitalInput", U),
    ("0011100", "BaudRate", U),
    ("0011101", "ResponseDelayTime", U),
    ("0011110", "Retry", U),
    ("0011111", "RemoteControl", U),
    ("0100000", "FirstStorageNumberForCyclicStorage", U),
    ("0100001", "LastStorageNumberForCyclicStorage", U),
    ("0100010", "SizeOfStorageBlock", U),
    ("0100011", "DescriptorForTariffAndSubunit", U),
    ("01001nn", "StorageInterval", Nn),
    ("0101000", "StorageInterval", D("Months")),
    ("0101001", "StorageInterval", D("Years")),
    ("0101010", "OperatorSpecific", U),
    ("0101011", "TimePointSecond", U),
    ("01011nn", "DurationSinceLastReadout", Nn),
    ("0110000", "StartDateTimeOfTariff", U),
    ("0110001", "DurationOfTariff", D("Minutes")),
    ("0110010", "DurationOfTariff", D("Hours")),
    ("0110011", "DurationOfTariff", D("Days")),
    ("01101nn", "PeriodOfTarrif", Nn),
    ("0111000", "PeriodOfTarrif", D("Months")),
    ("0111001", "PeriodOfTarrif", D("Years")),
    ("0111010", "Dimensionless", U),
    ("0111011", "WirelessContainer", U),
    ("01111nn", "PeriodOfNominalDataTransmissions", Nn),
    ("100nnnn", "Volts", E(-9)),
    ("101nnnn", "Amperes", E(-12)),
    ("1100000", "ResetCounter", U),
    ("1100001", "CumulationCounter", U),
    ("1100010", "ControlSignal", U),
    ("1100011", "DayOfWeek", U),
    ("1100100", "WeekNumber", U),
    ("1100101", "TimePointOfDayChange", U),
    ("1100110", "StateOfParameterActivation", U),
    ("1100111", "SpecialSupplierInformation", U),
    ("11010nn", "DurationSinceLastCumulation", Pp),
    ("11011nn", "OperatingTimeBattery", Pp),
    ("1110000", "DateAndTimeOfBatteryChange", U),
    ("1110001", "RFLevel", U),
    ("1110010", "DSTTypeK", U),
    ("1110011", "ListeningWindowManagement", U),
    ("1110100", "RemainingBatteryLife", D("Days")),
    ("1110101", "NumberTimesMeterStopped", U),
    ("1110110", "ManufacturerSpecificContainer", U),
];
pub const TABLE_13: &[Row] =
    &[("0000000", "CurrentlySelectedApplication", U), ("0000010", "RemainingBatteryLife", D("Months")), ("0000011", "RemainingBatteryLife", D("Years"))];
pub const TABLE_14: &[Row] = &[
    ("000000n", "Energy", UE("MWh", -1)),
    ("000001n", "ReactiveEnergy", E(0)),
    ("000010n", "ApparentEnergy", E(0)),
    ("000100n", "Energy", UE("GJ", -1)),
    ("00011nn", "Energy", UE("MCal", -1)),
    ("001000n", "Volume", UE("M3", 2)),
    ("00101nn", "ReactivePower", E(-3)),
    ("001100n", "Mass", UE("T", 2)),
    ("001101n", "RelativeHumidity", E(-1)),
    ("0100000", "Volume", UE("Feet3", 0)),
    ("0100001", "Volume", UE("Feet3", -1)),
    ("0100010", "RetiredCode", Ret("Table14")),
    ("0100011", "RetiredCode", Ret("Table14")),
    ("0100100", "RetiredCode", Ret("Table14")),
    ("0100101", "RetiredCode", Ret("Table14")),
    ("0100110", "RetiredCode", Ret("Table14")),
    ("010100n", "Power", UE("MW", -1)),
    ("0101010", "PhaseUU", U),
    ("0101011", "PhaseUI", U),
    ("01011nn", "Frequency", E(-3)),
    ("011000n", "Power", UE("GJph", -1)),
    // the scale of this one is not pinned down by the property
    ("01101nn", "ApparentPower", Free),
    ("1011nnn", "RetiredCode", Ret("Table14")),
    ("1100nnn", "RetiredCode", Ret("Table14")),
    ("1101000", "ResultingPowerFactorK", U),
    ("1101001", "ThermalOutputRatingFactorKq", U),
    ("1101010", "ThermalCouplingRatingFactorOverallKc", U),
    ("1101011", "ThermalCouplingRatingFactorRoomSideKcr", U),
    ("1101100", "ThermalCouplingRatingFactorHeaterSideKch", U),
    ("1101101", "LowTemperatureRatingFactorKt", U),
    ("1101110", "DisplayOutputScalingFactorKD", U),
    ("11100nn", "RetiredCode", Ret("Table14")),
    ("11101nn", "ColdWarmTemperatureLimit", E(-3)),
    ("1111nnn", "CumulativeMaxOfActivePower", E(-3)),
];
/// the meaning of the 7-bit code in byte `o` according to `table`
pub fn table(s: &Sym, o: usize, rows: &[Row], name: &'static str, g: B) -> Vec<Var> {
    let code = s.field(o, 6, 0, 8, false);
    let tbl = |t: &str| en(vec![var(T, t)]);
    let mut left = g;
    let mut out = vec![];
    for (pat, variant, a) in rows {
        let mut c = g;
        let mut n = vec![];
        for (i, ch) in pat.chars().enumerate() {
            let b = s.bit(o, 6 - i);
            match ch {
                '0' => c = and(c, not(b)),
                '1' => c = and(c, b),
                _ => n.insert(0, b),
            }
        }
        left = and(left, not(c));
        let ex = |off: i128| int(Int::sum(off, n.iter().enumerate().map(|(k, b)| (*b, 1i128 << k)).collect(), 8, true));
        let dur = |names: [&str; 4]| en((0..4).map(|v| var(and(if v & 1 == 1 { n[0] } else { not(n[0]) }, if v & 2 == 2 { n[1] } else { not(n[1]) }), names[v])).collect());
        out.push(match a {
            U => var(c, variant),
            Free => varn(c, variant, vec![Exp::Any]),
            E(o) => varn(c, variant, vec![ex(*o)]),
            UE(u, o) => varn(c, variant, vec![en(vec![var(T, u)]), ex(*o)]),
            Nn => varn(c, variant, vec![dur(["Seconds", "Minutes", "Hours", "Days"])]),
            Pp => varn(c, variant, vec![dur(["Hours", "Days", "Months", "Years"])]),
            D(d) => varn(c, variant, vec![en(vec![var(T, d)])]),
            Ret(t) => varn(c, variant, vec![tbl(t), int(code.clone())]),
        });
    }
    if left != F {
        out.push(varn(left, "ReservedCode", vec![tbl(name), int(code)]));
    }
    out
}

pub struct Vib {
    pub g: B,
    pub end: usize,
    pub vt: Vec<Var>,
    pub extra: Exp,
}
pub fn vib(s: &Sym, o: usize, g: B) -> Vec<Vib> {
    let mut heads: Vec<(B, usize, Vec<Var>, usize)> = vec![]; // guard, end, value type, byte with the extension bit
    if o >= s.n {
        return vec![];
    }
    let g = and(g, s.at_least(o + 1));
    let v = s.field(o, 6, 0, 8, false);
    let is = |x: u128| v.eq(&Int::c(x, 8, false)).unwrap();
    let e0 = s.bit(o, 7);
    let t10 = and(g, crate::models::in_range(&v, 0, 0x7A).unwrap());
    heads.push((t10, o + 1, table(s, o, TABLE_10, "Table10", t10), o));
    for (code, name) in [(0x7Fu128, "ManufacturerSpecific"), (0x7E, "Any")] {
        let h = and(g, is(code));
        heads.push((h, o + 1, vec![var(h, name)], o));
    }
    let inv = and_all([g, not(e0), or(is(0x7B), is(0x7D))]);
    heads.push((inv, o + 1, vec![varn(inv, "Invalid", vec![int(v.clone())])], o));
    if o + 1 < s.n {
        let two = and_all([g, e0, s.at_least(o + 2)]);
        let h = and(two, is(0x7B));
        heads.push((h, o + 2, table(s, o + 1, TABLE_14, "Table14", h), o + 1));
        let v1 = s.field(o + 1, 6, 0, 8, false);
        let again = v1.eq(&Int::c(0x7D, 8, false)).unwrap();
        let h = and_all([two, is(0x7D), not(again)]);
        heads.push((h, o + 2, table(s, o + 1, TABLE_12, "Table12", h), o + 1));
        if o + 2 < s.n {
            let h = and_all([two, is(0x7D), again, s.bit(o + 1, 7), s.at_least(o + 3)]);
            heads.push((h, o + 3, table(s, o + 2, TABLE_13, "Table13", h), o + 2));
        }
        for a in plain_text(s, o + 1, and(g, is(0x7C))) {
            heads.push((a.g, a.end, vec![varn(a.g, "PlainText", vec![a.e])], o));
        }
    }
    let mut out = vec![];
    for (h, end, vt, x) in heads {
        let none = and(h, not(s.bit(x, 7)));
        out.push(Vib { g: none, end, vt: vt.clone(), extra: en(vec![var(T, "None")]) });
        let mut chain = and(h, s.bit(x, 7));
        let mut vals = vec![];
        for k in end..s.n {
            let here = and(chain, s.at_least(k + 1));
            vals.push(int(s.field(k, 6, 0, 8, false)));
            out.push(Vib { g: and(here, not(s.bit(k, 7))), end: k + 1, vt: vt.clone(), extra: en(vec![var1(T, "Some", seq(vals.clone()))]) });
            chain = and(here, s.bit(k, 7));
        }
    }
    out.retain(|v| v.g != F);
    out
}

/// value types whose integers are unsigned; the second list is left open
pub const UNSIGNED: &[&str] = &[
    "UniqueMessageIdentification",
    "DeviceType",
    "Manufacturer",
    "ParameterSetIdentification",
    "ModelVersion",
    "HardwareVersionNumber",
    "MetrologyFirmwareVersionNumber",
    "OtherSoftwareVersionNumber",
    "CustomerLocation",
    "Customer",
    "AccessCodeUser",
    "AccessCodeOperator",
    "AccessCodeDeveloper",
    "Password",
    "ErrorMask",
    "SecurityKey",
    "BaudRate",
    "ResponseDelayTime",
    "FirstStorageNumberForCyclicStorage",
    "LastStorageNumberForCyclicStorage",
    "SizeOfStorageBlock",
    "DescriptorForTariffAndSubunit",
    "TimePointSecond",
    "DurationSinceLastReadout",
    "DurationOfTariff",
    "PeriodOfTarrif",
    "PeriodOfNominalDataTransmissions",
    "DayOfWeek",
    "WeekNumber",
    "StateOfParameterActivation",
    "SpecialSupplierInformation",
    "DurationSinceLastCumulation",
    "RemainingBatteryLife",
    "NumberTimesMeterStopped",
    "RelativeHumidity",
    "ResultingPowerFactorK",
    "ThermalCouplingRatingFactorHeaterSideKch",
    "ThermalCouplingRatingFactorOverallKc",
    "ThermalCouplingRatingFactorRoomSideKcr",
    "ThermalOutputRatingFactorKq",
];
pub const SIGN_OPEN: &[&str] = &["AccessCodeSystemOperator"];
pub const BOOLEAN: &[&str] = &["ErrorFlags", "DigitalOutput", "DigitalInput", "RemoteControl"];

// ---- records ----------------------------------------------------------------
/// a binary number whose signedness depends on the value type
fn number(s: &Sym, o: usize, n: usize, unsigned: B, open: B) -> Piece {
    if !need(s, o, n) {
        return no(n);
    }
    let u = integer(s, o, n, false).e;
    let i = integer(s, o, n, true).e;
    Piece { ok: T, len: n, e: Exp::Cond(vec![(open, Exp::Any), (unsigned, en(vec![var1(T, "Unsigned", u)])), (T, en(vec![var1(T, "Signed", i)]))]) }
}
fn wrap(p: Piece, variant: &str) -> Piece {
    Piece { ok: p.ok, len: p.len, e: en(vec![var1(T, variant, p.e)]) }
}
pub fn lvar(s: &Sym, o: usize, g: B, unsigned: B, open: B) -> Vec<Alt> {
    let mut out = vec![];
    if o >= s.n {
        return out;
    }
    let g = and(g, s.at_least(o + 1));
    for code in 0..=0xF6u128 {
        let h = and(g, s.is(o, code));
        if h == F {
            continue;
        }
        let d = o + 1;
        match code {
            0x00..=0xBF => out.extend(wrap(latin1(s, d, code as usize), "String").at(s, d, h)),
            0xC0..=0xC9 => {
                let n = code as usize - 0xC0;
                if need(s, d, n) {
                    let b = bcd_parts(s, d, n);
                    // positive numbers only
                    let nz = or_all(b.mag.iter().map(|x| x.0));
                    let p = bcd(s, d, n);
                    out.extend(wrap(Piece { ok: and_all([p.ok, not(b.neg), nz]), ..p }, "Signed").at(s, d, h));
                }
            }
            0xD0..=0xD9 => {
                let n = code as usize - 0xD0;
                if need(s, d, n) {
                    let b = bcd_parts(s, d, n);
                    let e = int(Int::sum(0, b.mag.iter().map(|x| (x.0, -x.1)).collect(), 64, true));
                    out.extend(wrap(Piece { ok: b.ok, len: n, e }, "Signed").at(s, d, h));
                }
            }
            0xE0..=0xE8 => out.extend(number(s, d, code as usize - 0xE0, unsigned, open).at(s, d, h)),
            0xE9..=0xEF => out.extend(wrap(raw(s, d, code as usize - 0xE0), "VariableLengthNumber").at(s, d, h)),
            0xF0..=0xF4 => out.extend(wrap(raw(s, d, 4 * (code as usize - 0xEC)), "VariableLengthNumber").at(s, d, h)),
            0xF5 => out.extend(wrap(raw(s, d, 48), "VariableLengthNumber").at(s, d, h)),
            0xF6 => out.extend(wrap(raw(s, d, 64), "VariableLengthNumber").at(s, d, h)),
            _ => {}
        }
    }
    out
}
/// one record; `dif` is the offset of its first byte
pub fn record(s: &Sym, o: usize, g: B) -> Vec<Alt> {
    let mut out = vec![];
    let nib = |v: u128| dif_nibble(s, o, v);
    for d in dib(s, o, g) {
        if d.g == F {
            continue;
        }
        for v in vib(s, d.end, d.g) {
            let has = |names: &[&str]| or_all(v.vt.iter().filter(|x| names.contains(&x.name.as_str())).map(|x| x.g));
            let unsigned = has(UNSIGNED);
            let open = has(SIGN_OPEN);
            // dates depend on the size of the data field
            let mut vt = vec![];
            let mut dates: Vec<(B, Vec<Alt>)> = vec![];
            let p = v.end;
            let vtype = |x: &str| has(&[x]);
            let gdate = and(vtype("TypeGDate"), nib(2));
            let vdt = vtype("VariableDateTime");
            dates.push((gdate, wrap(date_g(s, p), "Date").at(s, p, and(v.g, gdate))));
            let f = and(vdt, nib(4));
            dates.push((f, wrap(date_f(s, p), "DateTimeF").at(s, p, and(v.g, f))));
            let j = and(vdt, nib(3));
            dates.push((j, wrap(time_j(s, p), "Time").at(s, p, and(v.g, j))));
            let i = and(vdt, nib(6));
            dates.push((i, wrap(date_i(s, p), "DateTimeI").at(s, p, and(v.g, i))));
            let k = vtype("DSTTypeK");
            dates.push((k, wrap(dst_k(s, p), "DST").at(s, p, and(v.g, k))));
            for x in &v.vt {
                match x.name.as_str() {
                    "TypeGDate" => {
                        vt.push(var(and(x.g, nib(2)), "TypeGDate"));
                        vt.push(varn(and(x.g, not(nib(2))), "Invalid", vec![u8c(0x6C)]));
                    }
                    "VariableDateTime" => {
                        let mut left = x.g;
                        for (n, name) in [(0xD, "TypeMDatetime"), (4, "TypeFDateTime"), (3, "TypeJTime"), (6, "TypeIDateTime")] {
                            vt.push(var(and(x.g, nib(n)), name));
                            left = and(left, not(nib(n)));
                        }
                        vt.push(varn(left, "Invalid", vec![u8c(0x6D)]));
                    }
                    _ => vt.push(x.clone()),
                }
            }
            let is_date = or_all(dates.iter().map(|x| x.0));
            let plain = and(v.g, not(is_date));
            let mut data: Vec<Alt> = dates.into_iter().flat_map(|x| x.1).collect();
            data.push(alt(and(plain, nib(0)), p, en(vec![var(T, "None")])));
            for (code, n) in [(1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (7, 8)] {
                data.extend(number(s, p, n, unsigned, open).at(s, p, and(plain, nib(code))));
            }
            data.extend(wrap(real(s, p), "Real").at(s, p, and(plain, nib(5))));
            for (code, n) in [(9, 1), (10, 2), (11, 3), (12, 4), (14, 6)] {
                let h = and(plain, nib(code));
                if need(s, p, n) {
                    let b = bcd(s, p, n);
                    let bad = not(b.ok);
                    data.extend(wrap(b, "Signed").at(s, p, h));
                    data.extend(wrap(invalid_bcd(s, p, n), "ErrorValue").at(s, p, and(h, bad)));
                }
            }
            data.extend(lvar(s, p, and(plain, nib(13)), unsigned, open));
            for x in data {
                if x.g == F {
                    continue;
                }
                out.push(alt(
                    x.g,
                    x.end,
                    st(vec![("dib", d.e.clone()), ("vib", st(vec![("value_type", en(vt.clone())), ("extra_vifes", v.extra.clone())])), ("data", x.e)]),
                ));
            }
        }
    }
    out
}

// ---- transport layer --------------------------------------------------------
pub fn status(s: &Sym, o: usize) -> Exp {
    let b = |k| boolean(s.bit(o, k));
    let lo = (s.bit(o, 0), s.bit(o, 1));
    st(vec![
        ("manufacturer_2", b(7)),
        ("manufacturer_1", b(6)),
        ("manufacturer_0", b(5)),
        ("temporary_error", b(4)),
        ("permanent_error", b(3)),
        ("power_low", b(2)),
        (
            "application",
            en(vec![
                var(and(not(lo.1), not(lo.0)), "None"),
                var(and(not(lo.1), lo.0), "Busy"),
                var(and(lo.1, not(lo.0)), "Error"),
                var(and(lo.1, lo.0), "Alarm"),
            ]),
        ),
    ])
}
/// (accepted, value) of the configuration field
pub fn security(s: &Sym, o: usize) -> (B, Exp) {
    let mode = s.field(o + 1, 4, 0, 8, false);
    let zero = and(s.is(o, 0), s.is(o + 1, 0));
    let mut res = crate::models::in_range(&mode, 16, 31).unwrap();
    for m in [6u128, 11, 12, 14] {
        res = or(res, mode.eq(&Int::c(m, 8, false)).unwrap());
    }
    (or(zero, res), en(vec![var(zero, "None"), var1(res, "Reserved", int(s.le(o, 2, 16, false)))]))
}
/// access number, status, configuration at `o` (4 bytes)
pub fn short_fields(s: &Sym, o: usize) -> (B, Vec<(&'static str, Exp)>) {
    let (ok, sec) = security(s, o + 2);
    (
        ok,
        vec![
            ("access_number", int(s.bytes[o].clone())),
            ("status", status(s, o + 1)),
            ("configuration_field", sec),
            ("extra_header", en(vec![var(T, "None")])),
        ],
    )
}
pub fn short_header(s: &Sym, o: usize) -> Piece {
    if !need(s, o, 4) {
        return no(4);
    }
    let (ok, f) = short_fields(s, o);
    Piece { ok, len: 4, e: en(vec![var1(T, "Short", st(f))]) }
}
pub fn device_type(s: &Sym, o: usize) -> Vec<Var> {
    let is = |v: u128| s.is(o, v);
    let mut out = vec![];
    for (v, n) in [
        (0x00, "Other"),
        (0x01, "OilMeter"),
        (0x02, "ElectricityMeter"),
        (0x03, "GasMeter"),
        (0x05, "SteamMeter"),
        (0x08, "HeatCostAllocator"),
        (0x09, "CompressedAir"),
        (0x0E, "BusOrSystemComponent"),
        (0x0F, "Unknown"),
        (0x11, "WaterDataLogger"),
        (0x12, "GasDataLogger"),
        (0x13, "GasConverter"),
        (0x14, "CalorificValue"),
        (0x18, "PressureMeter"),
        (0x19, "ADConverter"),
        (0x1A, "SmokeDetector"),
        (0x1B, "RoomSensor"),
        (0x1C, "GasDetector"),
        (0x20, "ElectricalBreaker"),
        (0x21, "Valve"),
        (0x25, "CustomerUnit"),
        (0x29, "Garbage"),
        (0x2A, "ReservedCO2"),
        (0x30, "ServiceTool"),
        (0x31, "CommunicationController"),
        (0x32, "UnidirectionalRepeater"),
        (0x33, "BidirectionalRepeater"),
        (0x36, "RadioConverterSystemSide"),
        (0x37, "RadioConverterMeterSide"),
        (0x38, "BusConverterMeterSide"),
        (0xFF, "Wildcard"),
    ] {
        out.push(var(is(v), n));
    }
    for (v, n) in [(0x04, "OutletHeat"), (0x0A, "OutletCooling"), (0x0B, "InletCooling"), (0x0C, "InletHeat"), (0x0D, "Combined")] {
        out.push(var1(is(v), "ThermalEnergyMeter", en(vec![var(T, n)])));
    }
    for (v, n) in [(0x06, "Warm"), (0x07, "Potable"), (0x10, "Irrigation"), (0x15, "Hot"), (0x16, "Cold"), (0x17, "DualRegister"), (0x28, "Waste")] {
        out.push(var1(is(v), "WaterMeter", en(vec![var(T, n)])));
    }
    for (lo, hi, n) in [
        (0x1D, 0x1F, "ReservedSensor"),
        (0x22, 0x24, "ReservedSwitchingDevice"),
        (0x26, 0x27, "ReservedCustomerUnit"),
        (0x2B, 0x2F, "ReservedEnvironmental"),
        (0x34, 0x35, "ReservedSystemDevice"),
        (0x39, 0x3F, "ReservedSystemDevice"),
        (0x40, 0xFE, "Reserved"),
    ] {
        out.push(var(s.within(o, lo, hi), n));
    }
    out
}
/// three letters of five bits each in the 16-bit little-endian value `m`
pub fn letters(bits: &[B]) -> Vec<Int> {
    [10, 5, 0]
        .iter()
        .map(|sh| {
            let mut v: Vec<B> = bits[*sh..sh + 5].to_vec();
            v.push(F);
            v.push(T);
            v.resize(32, F);
            Int::bits(v, false)
        })
        .collect()
}

/// registered device names: manufacturer, version range, device type filter
pub const NAMES: &[(&str, u128, u128, Option<(&str, Option<&str>)>, &str)] = &[
    ("ABB", 0x02, 0x02, None, "ABB Delta-Meter"),
    ("ABB", 0x20, 0x20, None, "ABB B21 113-100"),
    ("ACW", 0x09, 0x09, None, "Itron CF Echo 2"),
    ("ACW", 0x0A, 0x0A, None, "Itron CF 51"),
    ("ACW", 0x0B, 0x0B, None, "Itron CF 55"),
    ("ACW", 0x0E, 0x0E, None, "Itron BM +m"),
    ("ACW", 0x0F, 0x0F, None, "Itron CF 800"),
    ("ACW", 0x14, 0x14, None, "Itron CYBLE M-Bus 1.4"),
    ("AMT", 0x00, 0x3F, None, "Aquametro AMTRON"),
    ("AMT", 0x40, 0x7F, None, "Aquametro SAPHIR"),
    ("AMT", 0x80, 0xBF, None, "Aquametro CALEC MB"),
    ("AMT", 0xC0, 0xFF, None, "Aquametro CALEC ST"),
    ("BEC", 0x00, 0x00, Some(("ElectricityMeter", None)), "Berg DCMi"),
    ("BEC", 0x07, 0x07, Some(("ElectricityMeter", None)), "Berg BLMi"),
    ("BEC", 0x71, 0x71, Some(("Unknown", None)), "Berg BMB-10S0"),
    ("EFE", 0x00, 0x00, Some(("WaterMeter", Some("Warm"))), "Engelmann WaterStar"),
    ("EFE", 0x00, 0x00, None, "Engelmann / Elster SensoStar 2"),
    ("EFE", 0x01, 0x01, None, "Engelmann SensoStar 2C"),
    ("ELS", 0x02, 0x02, None, "Elster TMP-A"),
    ("ELS", 0x0A, 0x0A, None, "Elster Falcon"),
    ("ELS", 0x2F, 0x2F, None, "Elster F96 Plus"),
    ("ELV", 0x14, 0x1D, None, "Elvaco CMa10"),
    ("ELV", 0x32, 0x3B, None, "Elvaco CMa11"),
    ("EMH", 0x00, 0x00, None, "EMH DIZ"),
    ("EMU", 0x10, 0x10, Some(("ElectricityMeter", None)), "EMU Professional 3/75 M-Bus"),
    ("GAV", 0x2D, 0x30, Some(("ElectricityMeter", None)), "Carlo Gavazzi EM24"),
    ("GAV", 0x39, 0x3A, Some(("ElectricityMeter", None)), "Carlo Gavazzi EM21"),
    ("GAV", 0x40, 0x40, Some(("ElectricityMeter", None)), "Carlo Gavazzi EM33"),
    ("GMC", 0xE6, 0xE6, None, "GMC-I A230 EMMOD 206"),
    ("HYD", 0x28, 0x28, None, "ABB F95 Typ US770"),
    ("HYD", 0x2F, 0x2F, None, "Hydrometer Sharky 775"),
    ("JAN", 0x09, 0x09, Some(("ElectricityMeter", None)), "Janitza UMG 96S"),
    ("KAM", 0x01, 0x01, None, "Kamstrup 382 (6850-005)"),
    ("KAM", 0x08, 0x08, None, "Kamstrup Multical 601"),
    ("LSE", 0x99, 0x99, None, "Siemens WFH21"),
    ("LUG", 0x02, 0x02, None, "Landis & Gyr Ultraheat 2WR5"),
    ("LUG", 0x03, 0x03, None, "Landis & Gyr Ultraheat 2WR6"),
    ("LUG", 0x04, 0x04, None, "Landis & Gyr Ultraheat UH50"),
    ("LUG", 0x07, 0x07, None, "Landis & Gyr Ultraheat T230"),
    ("NZR", 0x01, 0x01, None, "NZR DHZ 5/63"),
    ("NZR", 0x50, 0x50, None, "NZR IC-M2"),
    ("RAM", 0x03, 0x03, None, "Rossweiner ETK/ETW Modularis"),
    ("REL", 0x08, 0x08, None, "Relay PadPuls M1"),
    ("REL", 0x12, 0x12, None, "Relay PadPuls M4"),
    ("REL", 0x20, 0x20, None, "Relay Padin 4"),
    ("REL", 0x30, 0x30, None, "Relay AnDi 4"),
    ("REL", 0x40, 0x40, None, "Relay PadPuls M2"),
    ("RKE", 0x69, 0x69, None, "Ista sensonic II mbus"),
    ("SBC", 0x10, 0x10, None, "Saia-Burgess ALE3"),
    ("SBC", 0x19, 0x19, None, "Saia-Burgess ALE3"),
    ("SBC", 0x11, 0x11, None, "Saia-Burgess AWD3"),
    ("SEN", 0x08, 0x08, None, "Sensus PolluCom E"),
    ("SEN", 0x19, 0x19, None, "Sensus PolluCom E"),
    ("SEN", 0x0B, 0x0B, None, "Sensus PolluTherm"),
    ("SEN", 0x0E, 0x0E, None, "Sensus PolluStat E"),
    ("SEO", 0x30, 0x30, None, "Sensoco PT100"),
    ("SEO", 0x41, 0x41, None, "Sensoco 2-NTC"),
    ("SEO", 0x45, 0x45, None, "Sensoco Laser Light"),
    ("SEO", 0x48, 0x48, None, "Sensoco ADIO"),
    ("SEO", 0x51, 0x51, None, "Sensoco THU"),
    ("SEO", 0x61, 0x61, None, "Sensoco THU"),
    ("SEO", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
    ("GTE", 0x30, 0x30, None, "Sensoco PT100"),
    ("GTE", 0x41, 0x41, None, "Sensoco 2-NTC"),
    ("GTE", 0x45, 0x45, None, "Sensoco Laser Light"),
    ("GTE", 0x48, 0x48, None, "Sensoco ADIO"),
    ("GTE", 0x51, 0x51, None, "Sensoco THU"),
    ("GTE", 0x61, 0x61, None, "Sensoco THU"),
    ("GTE", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
    ("SLB", 0x02, 0x02, None, "Allmess Megacontrol CF-50"),
    ("SLB", 0x06, 0x06, None, "CF Compact / Integral MK MaXX"),
    ("SON", 0x0D, 0x0D, None, "Sontex Supercal 531"),
    ("SPX", 0x31, 0x31, None, "Sensus PolluTherm"),
    ("SPX", 0x34, 0x34, None, "Sensus PolluTherm"),
    ("SVM", 0x08, 0x08, None, "Elster F2 / Deltamess F2"),
    ("SVM", 0x09, 0x09, None, "Elster F4 / Kamstrup SVM F22"),
    ("TCH", 0x26, 0x26, None, "Techem m-bus S"),
    ("TCH", 0x40, 0x40, None, "Techem ultra S3"),
    ("WZG", 0x03, 0x03, None, "Modularis ETW-EAX"),
    ("ZRM", 0x81, 0x81, None, "Minol Minocal C2"),
    ("ZRM", 0x82, 0x82, None, "Minol Minocal WR3"),
];
pub fn mfr(code: &str) -> u128 {
    let b = code.as_bytes();
    (b[0] as u128 - 64) * 1024 + (b[1] as u128 - 64) * 32 + (b[2] as u128 - 64)
}
/// `ty(filter)`: predicate of the device type filter
pub fn device_name(man: &Int, version: &Int, id3: &Int, ty: &dyn Fn(&str, Option<&str>) -> B) -> Exp {
    let is_m = |m: &str| man.eq(&Int::c(mfr(m), 16, false)).unwrap();
    let alt_id = or_all(["SBC", "SEO", "GTE"].iter().map(|m| is_m(m)));
    let ver = Int::ite(alt_id, id3, version);
    let mut left = T;
    let mut out = vec![];
    for (m, lo, hi, t, name) in NAMES {
        let mut g = and(is_m(m), crate::models::in_range(&ver, *lo, *hi).unwrap());
        if let Some((a, b)) = t {
            g = and(g, ty(a, *b));
        }
        g = and(g, left);
        left = and(left, not(g));
        out.push((g, name.to_string()));
    }
    let some = not(left);
    en(vec![var(left, "None"), var1(some, "Some", Exp::Lit(out))])
}
pub fn long_header(s: &Sym, o: usize) -> Piece {
    if !need(s, o, 12) {
        return no(12);
    }
    let id = bcd_parts(s, o, 4);
    // the identifier must not be negative
    let ident = Int::sum(0, id.mag.clone(), 32, false);
    let mbits = s.le(o + 4, 2, 16, false);
    let mb = mbits.to_bits().unwrap();
    let man = letters(&mb);
    let man_ok = and_all(man.iter().map(|c| crate::models::in_range(c, 'A' as u128, 'Z' as u128).unwrap()));
    let (sok, fields) = short_fields(s, o + 8);
    let dt = device_type(s, o + 7);
    let neg_nz = and(id.neg, or_all(id.mag.iter().map(|x| x.0)));
    let ok = and_all([id.ok, not(neg_nz), man_ok, sok]);
    let dtc = dt.clone();
    let is_dt = move |a: &str, b: Option<&str>| {
        or_all(dtc.iter().filter(|v| v.name == a && b.is_none_or(|b| matches!(&v.f[0].1, Exp::En(x) if x[0].name == b))).map(|v| v.g))
    };
    let name = device_name(&mbits, &s.bytes[o + 6], &s.bytes[o + 3], &is_dt);
    let mut f = vec![
        ("identifier", int(ident)),
        ("manufacturer", text(man)),
        ("device_name", name),
        ("version", int(s.bytes[o + 6].clone())),
        ("device_type", en(dt)),
    ];
    f.extend(fields);
    Piece { ok, len: 12, e: en(vec![var1(T, "Long", st(f))]) }
}

// ---- link layer -------------------------------------------------------------
pub fn control(s: &Sym, o: usize) -> (B, Exp) {
    let f = s.field(o, 3, 0, 8, false);
    let is = |v: u128| f.eq(&Int::c(v, 8, false)).unwrap();
    let prm = s.bit(o, 6);
    let b5 = s.bit(o, 5);
    let b4 = s.bit(o, 4);
    let pv = |fcv: bool, v: u128, n: &str| var(and(if fcv { b4 } else { not(b4) }, is(v)), n);
    let prim = vec![
        pv(false, 0, "ResetRemoteLink"),
        pv(false, 1, "ResetUserProcess"),
        pv(true, 3, "SendUserDataConfirmed"),
        pv(false, 4, "SendUserDataUnconfirmed"),
        pv(false, 8, "RequestAccessDemand"),
        pv(false, 9, "RequestLinkStatus"),
        pv(true, 10, "RequestUserData1"),
        pv(true, 11, "RequestUserData2"),
    ];
    let sec = vec![
        var(is(0), "ACK"),
        var(is(1), "NACK"),
        var(is(8), "UserData"),
        var(is(9), "UserDataUnavailable"),
        var(is(11), "Status"),
        var(is(14), "LinkNotFunctioning"),
        var(is(15), "LinkNotImplemented"),
    ];
    let pok = or_all(prim.iter().map(|v| v.g));
    let sok = or_all(sec.iter().map(|v| v.g));
    let ok = and(not(s.bit(o, 7)), or(and(prm, pok), and(not(prm), sok)));
    let e = en(vec![
        varf(prm, "Primary", vec![("frame_count_bit", boolean(b5)), ("message", en(prim))]),
        varf(
            not(prm),
            "Secondary",
            vec![("access_demand", boolean(b5)), ("data_flow_control", en(vec![var(b4, "Pause"), var(not(b4), "Continue")])), ("message", en(sec))],
        ),
    ]);
    (ok, e)
}
