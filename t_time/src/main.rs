//! T01..T07: the time library, explored against exact integer models.
use aether_time::time::*;
use mckit::{guard, h, main as kit_main, words, Run};
use std::cell::{Cell, RefCell};

const G: i128 = 1_000_000_000;

fn ns_t<S>(t: Time<S>) -> i128 {
    t.sec as i128 * G + t.nano_sec as i128
}
fn ns_d(d: Duration) -> i128 {
    d.sec as i128 * G + d.nano_sec as i128
}
fn canon(n: i32) -> bool {
    (0..1_000_000_000).contains(&n)
}
fn mk_d(ns: i128) -> Duration {
    Duration { sec: ns.div_euclid(G) as i64, nano_sec: ns.rem_euclid(G) as i32 }
}
fn mk_t<S>(ns: i128) -> Time<S> {
    Time::new(ns.div_euclid(G) as i64, ns.rem_euclid(G) as i32)
}
fn show(ns: i128) -> String {
    format!("{}s+{}ns", ns.div_euclid(G), ns.rem_euclid(G))
}

// ---------------------------------------------------------------- calendar
fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
fn mdays(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days from 1970-01-01 to y-01-01 by whole 400-year cycles, then year by year.
fn year_start(y: i64) -> i64 {
    let c = (y - 1970).div_euclid(400);
    let mut d = c * 146_097;
    for k in (1970 + c * 400)..y {
        d += 365 + leap(k) as i64;
    }
    d
}

fn t01(r: &mut Run) {
    let mut one = |r: &mut Run, day: i64, y: i64, m: i64, d: i64, tod: i64, nanos: i32| {
        let secs = day * 86_400 + tod;
        r.step();
        let want = UtcDateTime::new(
            y as i32, m as u8, d as u8,
            (tod / 3600) as u8, (tod / 60 % 60) as u8, (tod % 60) as u8, nanos,
        );
        let got = Time::<UTC>::new(secs, nanos).to_utc_datetime();
        r.check(got == want, "to_civil", || {
            format!("to_utc_datetime(sec={secs}, nanos={nanos}) = {got:?}, calendar says {want:?}")
        });
        let back = Time::<UTC>::from_utc_datetime(want);
        r.check(back.sec == secs && back.nano_sec == nanos, "from_civil", || {
            format!("from_utc_datetime({want:?}) = {back:?}, calendar says sec={secs}")
        });
        r.sample(|| format!("{want:?} <-> {secs} s"));
    };
    // every day of a span of years, several times of day
    let (lo, hi) = if r.thorough { (-12_000, 20_000) } else { (-2_400, 4_800) };
    let mut day = year_start(lo);
    for y in lo..hi {
        for m in 1..=12 {
            for d in 1..=mdays(y, m) {
                for (tod, n) in [(0, 0), (43_200 - 1, 1), (86_399, 999_999_999)] {
                    one(r, day, y, m, d, tod, n);
                }
                r.states_distinct(1);
                r.outcome(h(&[m as u8, d as u8, leap(y) as u8]));
                day += 1;
            }
        }
        r.trace();
    }
    r.section("every day of the year span");
    // every second of days on both sides of the epoch and of leap days
    for (y, m, d) in [(1970, 1, 1), (1969, 12, 31), (2000, 2, 29), (1900, 2, 28), (-1, 12, 31), (0, 1, 1), (1, 1, 1)] {
        let mut dd = year_start(y);
        for k in 1..m {
            dd += mdays(y, k);
        }
        dd += d - 1;
        for tod in 0..86_400 {
            one(r, dd, y, m, d, tod, 123_456_789);
        }
        r.states_distinct(86_400);
        r.trace();
    }
    r.section("every second of seven days");
    // whole 400-year cycles far from the epoch
    let eras: &[i64] = if r.thorough {
        &[-2_000_000_000, -1_000_000, -40_000, 40_000, 1_000_000, 2_000_000_000]
    } else {
        &[-2_000_000_000, 2_000_000_000]
    };
    for &base in eras {
        let mut day = year_start(base);
        for y in base..base + 400 {
            for m in 1..=12 {
                for d in 1..=mdays(y, m) {
                    one(r, day, y, m, d, 86_399, 5);
                    r.states_distinct(1);
                    day += 1;
                }
            }
            r.trace();
        }
    }
    r.section("far 400-year cycles");
    r.bounds.push(format!("all days of years {lo}..{hi}; all seconds of 7 days; full 400-year cycles at {eras:?}"));
    r.assumptions.push("second 60 (an inserted leap second) is not part of the input domain".into());
}

// ------------------------------------------------------------- arithmetic
fn sec_set(th: bool) -> Vec<i64> {
    let mut v = vec![0, 1, -1, 2, -2, 59, 60, -60, 86_399, 86_400, -86_400, 1 << 31, -(1 << 31), 1 << 40, -(1 << 40), 1 << 61, -(1 << 61)];
    if th {
        for k in [3, 7, 19, 37, 3600, 315_964_800, 604_800, (1 << 32) - 1, 1 << 32, 1 << 53] {
            v.push(k);
            v.push(-k);
        }
    }
    v
}
const NS: [i32; 11] = [0, 1, 2, 999, 1_000_000, 499_999_999, 500_000_000, 500_000_001, 999_999_000, 999_999_998, 999_999_999];

fn t02(r: &mut Run) {
    let secs = sec_set(r.thorough);
    let mut vals = vec![];
    for &s in &secs {
        for &n in &NS {
            vals.push((s, n));
        }
    }
    let ok = |r: &mut Run, what: &str, sec: i64, nano: i32, want: i128, case: &dyn Fn() -> String| {
        r.step();
        r.check(canon(nano) && sec as i128 * G + nano as i128 == want, what, || {
            format!("{what}: {} gave sec={sec} nano_sec={nano}, exact result {}", case(), show(want))
        });
    };
    for &(s1, n1) in &vals {
        for &(s2, n2) in &vals {
            let (a, b) = (s1 as i128 * G + n1 as i128, s2 as i128 * G + n2 as i128);
            let (ta, tb) = (Time::<TAI>::new(s1, n1), Time::<TAI>::new(s2, n2));
            let (da, db) = (Duration { sec: s1, nano_sec: n1 }, Duration { sec: s2, nano_sec: n2 });
            r.states_distinct(1);
            r.trace();
            let case = || format!("({s1},{n1}) with ({s2},{n2})");
            let x = ta + db;
            ok(r, "time+dur", x.sec, x.nano_sec, a + b, &case);
            let x = &ta + db;
            ok(r, "&time+dur", x.sec, x.nano_sec, a + b, &case);
            let x = ta - tb;
            ok(r, "time-time", x.sec, x.nano_sec, a - b, &case);
            let x = &ta - &tb;
            ok(r, "&time-&time", x.sec, x.nano_sec, a - b, &case);
            let x = da + db;
            ok(r, "dur+dur", x.sec, x.nano_sec, a + b, &case);
            let x = da - db;
            ok(r, "dur-dur", x.sec, x.nano_sec, a - b, &case);
            // a duration whose public nanoseconds are negative (as `Duration { sec, nano_sec: -n }`
            // writes a short step back) is still the sum of its parts
            let (dn, b) = (Duration { sec: s2, nano_sec: -n2 }, s2 as i128 * G - n2 as i128);
            let x = ta + dn;
            ok(r, "time+dur with negative nanoseconds", x.sec, x.nano_sec, a + b, &case);
            let x = &ta + dn;
            ok(r, "&time+dur with negative nanoseconds", x.sec, x.nano_sec, a + b, &case);
            let x = da + dn;
            ok(r, "dur+dur with negative nanoseconds", x.sec, x.nano_sec, a + b, &case);
            let x = da - dn;
            ok(r, "dur-dur with negative nanoseconds", x.sec, x.nano_sec, a - b, &case);
            let b = s2 as i128 * G + n2 as i128;
            r.check(
                da.cmp(&db) == a.cmp(&b) && da.partial_cmp(&db) == Some(a.cmp(&b)) && (da == db) == (a == b)
                    && ta.cmp(&tb) == a.cmp(&b) && ta.partial_cmp(&tb) == Some(a.cmp(&b)) && (ta == tb) == (a == b)
                    && (da < db) == (a < b) && (ta >= tb) == (a >= b),
                "order", || format!("comparison of {} disagrees with exact order", case()));
            let back = tb + (ta - tb);
            r.check(back == ta, "sub_add", || format!("b + (a-b) != a for {}", case()));
            r.outcome(h(&[(a.cmp(&b) as i8) as u8, (n1 + n2 >= 1_000_000_000) as u8, (n1 < n2) as u8, (a < 0) as u8, (b < 0) as u8]));
            r.sample(|| format!("{} : sum {} difference {}", case(), show(a + b), show(a - b)));
        }
    }
    r.section("all pairs of boundary instants and durations");
    // constructors: same length => equal value, for every unit
    let span: i64 = if r.thorough { 400_000 } else { 40_000 };
    let mut pts: Vec<i64> = (-span..=span).collect();
    for k in -40..=40i64 {
        for b in [1_000i64, 1_000_000, 1_000_000_000, 86_400_000_000_000, 100_000_000_000_000_000] {
            for e in [-1, 0, 1] {
                if let Some(x) = k.checked_mul(b) {
                    pts.push(x + e);
                }
            }
        }
    }
    for e in 0..3 {
        pts.push(i64::MAX - e);
        pts.push(i64::MIN + e);
    }
    for &n in &pts {
        r.states_distinct(1);
        r.trace();
        for (what, unit, d) in [
            ("from_nanos", 1i128, Duration::from_nanos(n)),
            ("from_nanos_i64", 1, Duration::from_nanos_i64(n)),
            ("from_micros", 1_000, Duration::from_micros(n)),
            ("from_millis", 1_000_000, Duration::from_millis(n)),
            ("from_secs", G, Duration::from_secs(n)),
        ] {
            ok(r, what, d.sec, d.nano_sec, n as i128 * unit, &|| format!("{what}({n})"));
        }
        r.sample(|| format!("from_nanos/micros/millis/secs({n})"));
    }
    r.section("constructors in every unit");
    for &s in &secs {
        for k in -2..=2i64 {
            for e in [-2, -1, 0, 1, 2, 500_000_000, 147_483_646] {
                let n = k * 1_000_000_000 + e;
                if n < i32::MIN as i64 || n > i32::MAX as i64 {
                    continue;
                }
                let d = Duration { sec: s, nano_sec: n as i32 }.normalize();
                ok(r, "normalize", d.sec, d.nano_sec, s as i128 * G + n as i128, &|| format!("normalize({s},{n})"));
                r.states_distinct(1);
            }
        }
        for n in [i32::MIN, i32::MAX] {
            let d = Duration { sec: s, nano_sec: n }.normalize();
            ok(r, "normalize", d.sec, d.nano_sec, s as i128 * G + n as i128, &|| format!("normalize({s},{n})"));
        }
    }
    let z = Duration::zero();
    r.check(z.sec == 0 && z.nano_sec == 0, "zero", || format!("{z:?}"));
    r.section("normalize");
    // histories of an accumulator: every word of +/- over a small alphabet
    let al: [i128; 6] = [1, 999_999_999, 1_000_000_000, 333_333_333, 1_500_000_000, 86_400 * G];
    let len = if r.thorough { 6 } else { 5 };
    let mut w = words(al.len() * 2, len);
    while let Some(word) = w.next() {
        let word = word.to_vec();
        let mut d = Duration::zero();
        let mut t = Time::<GPS>::new(-3, 7);
        let t0 = ns_t(t);
        let mut m = 0i128;
        for (i, &x) in word.iter().enumerate() {
            let v = al[x / 2];
            if x % 2 == 0 {
                d = d + mk_d(v);
                t = t + mk_d(v);
                m += v;
            } else {
                d = d - mk_d(v);
                t = t + mk_d(-v);
                m -= v;
            }
            r.step();
            r.check(canon(d.nano_sec) && ns_d(d) == m && canon(t.nano_sec) && ns_t(t) - t0 == m, "history", || {
                format!("after {:?} of word {word:?} over {al:?}(+/-): duration {d:?}, time {t:?}, exact {m}", i + 1)
            });
        }
        r.state(h(&m.to_le_bytes()));
        r.trace();
    }
    r.section("accumulator histories");
    r.bounds.push(format!("{} boundary values pairwise; constructors on {} arguments; words of length {len} over 12 operations", vals.len(), pts.len()));
    r.assumptions.push("operands have canonical nanoseconds and |sec| <= 2^61 (no i64 overflow)".into());
}

// ------------------------------------------------------------ time scales
thread_local! {
    static SCHED: RefCell<Vec<(u32, i32)>> = const { RefCell::new(vec![]) };
    static ACC: Cell<u32> = const { Cell::new(0) };
    static IN: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<Vec<i32>> = const { RefCell::new(vec![]) };
}
/// Called by the instrumented atomic before each access of the running
/// conversion: performs the other party's updates scheduled at this point.
fn on_access() {
    if IN.with(|i| i.get()) {
        return;
    }
    let n = ACC.with(|a| {
        let n = a.get();
        a.set(n + 1);
        n
    });
    let todo: Vec<i32> = SCHED.with(|s| s.borrow().iter().filter(|e| e.0 == n).map(|e| e.1).collect());
    for v in todo {
        IN.with(|i| i.set(true));
        set_leap_seconds(v);
        IN.with(|i| i.set(false));
        SEEN.with(|s| s.borrow_mut().push(v));
    }
}

fn t03(r: &mut Run) {
    use aether_time::mc::set_hook;
    set_hook(None);
    // sequential part: every conversion for every leap count and instant
    let times: Vec<(i64, i32)> = {
        let mut v = vec![];
        for s in [0i64, 1, -1, 10, 19, 36, 37, 38, 315_964_799, 315_964_800, 315_964_801, 315_964_819, 1_483_228_836, 1_483_228_837, 1_700_000_000, -315_964_800, 1 << 40, -(1 << 40)] {
            for n in [0, 1, 999_999_999] {
                v.push((s, n));
            }
        }
        v
    };
    let far: Vec<i32> = [100, 127, 128, 200, 255, 256, 1000, 32_767, 32_768, 65_535, 65_536, 1 << 24, 1 << 30].iter().flat_map(|&x| [x, -x]).collect();
    for leaps in (-12..=80i32).chain(far) {
        set_leap_seconds(leaps);
        let off = (10 + leaps) as i128 * G;
        r.check(tai_minus_utc() == 10 + leaps, "offset", || format!("tai_minus_utc() = {} after set_leap_seconds({leaps})", tai_minus_utc()));
        for &(s, n) in &times {
            let x = s as i128 * G + n as i128;
            let gpse = UNIX_GPS_EPOCH as i128 * G;
            let c: [(&str, i128, i128); 12] = [
                ("utc->tai", ns_t(Time::<UTC>::new(s, n).to_tai()), x + off),
                ("tai->utc", ns_t(Time::<TAI>::new(s, n).to_utc()), x - off),
                ("utc->gps", ns_t(Time::<UTC>::new(s, n).to_gps()), x + off - 19 * G - gpse),
                ("gps->utc", ns_t(Time::<GPS>::new(s, n).to_utc()), x - off + 19 * G + gpse),
                ("gps->tai", ns_t(Time::<GPS>::new(s, n).to_tai()), x + gpse + 19 * G),
                ("tai->gps", ns_t(Time::<TAI>::new(s, n).to_gps()), x - gpse - 19 * G),
                ("unix->utc", ns_t(Time::<Unix>::new(s, n).to_utc()), x),
                ("utc->unix", ns_t(Time::<UTC>::new(s, n).to_unix()), x),
                ("utc->tai->utc", ns_t(Time::<UTC>::new(s, n).to_tai().to_utc()), x),
                ("utc->gps->utc", ns_t(Time::<UTC>::new(s, n).to_gps().to_utc()), x),
                ("gps->tai->gps", ns_t(Time::<GPS>::new(s, n).to_tai().to_gps()), x),
                ("utc->gps->tai", ns_t(Time::<UTC>::new(s, n).to_gps().to_tai()), x + off),
            ];
            for (what, got, want) in c {
                r.step();
                r.check(got == want, what, || format!("{what} at leaps={leaps}, ({s},{n}): got {} want {}", show(got), show(want)));
            }
            r.states_distinct(1);
            r.trace();
        }
    }
    // GPS epoch anchors
    set_leap_seconds(9); // TAI-UTC = 19 at the GPS epoch
    let e = Time::<UTC>::from_utc_datetime(UtcDateTime::new(1980, 1, 6, 0, 0, 0, 0));
    r.check(e.to_gps() == Time::<GPS>::new(0, 0), "epoch", || format!("GPS epoch maps to {:?}", e.to_gps()));
    r.section("every conversion x leap count x instant");

    // interleavings: a reader runs one conversion (or chain) while another party
    // performs up to two leap-second updates, at every choice of access points.
    type Conv = (&'static str, fn(i64) -> i64, fn(i64, i32) -> i64);
    let convs: [Conv; 11] = [
        ("utc->tai", |s| Time::<UTC>::new(s, 0).to_tai().sec, |s, l| s + 10 + l as i64),
        ("tai->utc", |s| Time::<TAI>::new(s, 0).to_utc().sec, |s, l| s - 10 - l as i64),
        ("utc->gps", |s| Time::<UTC>::new(s, 0).to_gps().sec, |s, l| s + 10 + l as i64 - 19 - UNIX_GPS_EPOCH),
        ("gps->utc", |s| Time::<GPS>::new(s, 0).to_utc().sec, |s, l| s - 10 - l as i64 + 19 + UNIX_GPS_EPOCH),
        ("gps->tai", |s| Time::<GPS>::new(s, 0).to_tai().sec, |s, _| s + 19 + UNIX_GPS_EPOCH),
        ("tai->gps", |s| Time::<TAI>::new(s, 0).to_gps().sec, |s, _| s - 19 - UNIX_GPS_EPOCH),
        ("unix->utc", |s| Time::<Unix>::new(s, 0).to_utc().sec, |s, _| s),
        ("now_gps", |s| TimeKeeper::<GPS>::new(MissionEpoch::new_tai(Time::new(s, 0)), 0, 1).now_gps(5).sec, |s, _| s + 5 - 19 - UNIX_GPS_EPOCH),
        ("now_utc", |s| TimeKeeper::<UTC>::new(MissionEpoch::new_tai(Time::new(s, 0)), 0, 1).now_utc(5).sec, |s, l| s + 5 - 10 - l as i64),
        ("epoch_utc", |s| MissionEpoch::new_utc(Time::new(s, 0)).start().sec, |s, l| s + 10 + l as i64),
        ("tai_minus_utc", |_| tai_minus_utc() as i64, |_, l| 10 + l as i64),
    ];
    let vals = [27, 28, 26, 0, -3];
    let mut schedules = 0u64;
    for (name, f, model) in convs {
        for s in [0i64, 315_964_800, 1_700_000_000, -5] {
            // number of accesses with no interference
            for &v0 in &vals {
                IN.with(|i| i.set(true));
                set_leap_seconds(v0);
                IN.with(|i| i.set(false));
                ACC.with(|a| a.set(0));
                SCHED.with(|x| x.borrow_mut().clear());
                set_hook(Some(on_access));
                let base = f(s);
                set_hook(None);
                let n = ACC.with(|a| a.get());
                r.check(base == model(s, v0), name, || format!("{name}({s}) with leaps={v0} undisturbed = {base}, want {}", model(s, v0)));
                // all placements of 1 or 2 updates; a disturbed run may make
                // more accesses, so slots run past the undisturbed count
                let slots = n + 2;
                let mut plans: Vec<Vec<(u32, i32)>> = vec![];
                for p1 in 0..slots {
                    for &v1 in &vals {
                        plans.push(vec![(p1, v1)]);
                        for p2 in p1..slots {
                            for &v2 in &vals {
                                plans.push(vec![(p1, v1), (p2, v2)]);
                            }
                        }
                    }
                }
                for plan in plans {
                    IN.with(|i| i.set(true));
                    set_leap_seconds(v0);
                    IN.with(|i| i.set(false));
                    ACC.with(|a| a.set(0));
                    SEEN.with(|x| x.borrow_mut().clear());
                    SCHED.with(|x| *x.borrow_mut() = plan.clone());
                    set_hook(Some(on_access));
                    let got = f(s);
                    set_hook(None);
                    schedules += 1;
                    r.step();
                    r.trace();
                    let mut allowed = vec![v0];
                    SEEN.with(|x| allowed.extend(x.borrow().iter()));
                    r.state(h(format!("{name}{s}{v0}{plan:?}").as_bytes()));
                    r.outcome(h(format!("{name}{}", got - s).as_bytes()));
                    r.check(allowed.iter().any(|&l| model(s, l) == got), &format!("race:{name}"), || {
                        format!("{name}({s}) = {got} while leap seconds went {allowed:?} (updates before access #: {plan:?}); no single value gives that result")
                    });
                    r.sample(|| format!("{name}({s}) leaps {v0} with updates {plan:?} -> {got}"));
                }
            }
        }
    }
    set_leap_seconds(27);
    r.section("conversions interleaved with leap-second updates");
    r.bounds.push(format!("leap counts -12..=80 and 26 far ones; {schedules} schedules: one reader, up to 2 updates, every access point"));
    r.assumptions.push("one shared location, so any memory order on it is sequentially consistent per location; every access goes through the instrumented atomic".into());
}

// ----------------------------------------------------------------- timers
fn t04(r: &mut Run) {
    let ms = 1_000_000i128;
    let periods: Vec<i128> = vec![1, 3, 7 * ms, 10 * ms, 100 * ms, 999_999_999, G, G + 1, 1_500 * ms, 5 * G];
    let len = if r.thorough { 7 } else { 5 };
    for &p in &periods {
        // step sizes are relative to the period, plus two absolute ones
        let al: Vec<i128> = vec![0, 1, p - 1, p, p + 1, p / 2 + 1, 3 * p, 2 * p + p / 2];
        let mut w = words(al.len(), len);
        while let Some(word) = w.next() {
            let word = word.to_vec();
            let mut ev = TimerEvent::new(mk_d(p));
            let mut acc = 0i128;
            let mut total = 0i128;
            for (i, &x) in word.iter().enumerate() {
                r.here(|| format!("timer period {p} ns, steps {word:?} of {al:?}"));
                let before = total / p;
                total += al[x];
                acc += al[x];
                let want = acc >= p;
                acc %= p;
                let got = ev.step(mk_d(al[x]));
                r.step();
                r.check(want == (total / p > before), "model", || "internal: the two models disagree".into());
                r.check(got == want, "fire", || {
                    format!("period {p} ns, steps {:?} ns: step #{} fired={got}, exact {want}", word[..=i].iter().map(|&x| al[x]).collect::<Vec<_>>(), i + 1)
                });
                r.state(h(&[p.to_le_bytes(), acc.to_le_bytes()].concat()));
                r.outcome(h(&[got as u8, (acc == 0) as u8]));
            }
            r.trace();
            r.sample(|| format!("period {p} ns word {word:?} over {al:?}"));
        }
    }
    r.section("one timer: all step words");
    // long runs with a step that does not divide the period: no drift
    let n = if r.thorough { 3_000_000 } else { 300_000 };
    for (p, d) in [(10 * ms, 3 * ms + 1), (G, 333_333_333), (G, 16_666_667), (7 * ms, 999_999_999), (60 * G, 1_000_001)] {
        let mut ev = TimerEvent::new(mk_d(p));
        let mut total = 0i128;
        for i in 0..n {
            let before = total / p;
            total += d;
            let got = ev.step(mk_d(d));
            r.step();
            if !r.check(got == (total / p > before), "drift", || format!("period {p} ns, dt {d} ns: step {i} fired={got}, exact {}", !got)) {
                break;
            }
        }
        r.trace();
        r.states_distinct(1);
    }
    r.section("long runs");
    // one step over many periods, and periods and steps of years up to millennia
    let year = 31_556_952 * G;
    let ks: &[i128] = if r.thorough { &[1, 2, 10, 100, 255, 256, 999, 1000, 1024, 4095, 10_000, 65_536, 1_000_000] } else { &[1, 2, 10, 100, 255, 256, 999, 1000, 1024, 4095, 10_000, 65_536] };
    for p in [1, 3, 10 * ms, G, G + 1, 86_400 * G, 86_400 * G + 1, year, 293 * year, 1000 * year + 7] {
        for &k in ks {
            for e in [0, 1, p - 1] {
                for first in [0, p / 2, p - 1] {
                    let mut ev = TimerEvent::new(mk_d(p));
                    let mut total = 0i128;
                    for x in [first, k * p + e, 0, p - 1, 1, p] {
                        let before = total / p;
                        total += x;
                        let got = ev.step(mk_d(x));
                        r.step();
                        r.check(got == (total / p > before), "far", || format!("period {p} ns, steps {first}, {k} periods + {e}, 0, period - 1, 1, period: at total {total} fired={got}"));
                    }
                    r.trace();
                    r.states_distinct(1);
                }
            }
        }
    }
    r.section("steps over many periods");
    // a set of timers: each behaves as if alone, also when one is re-armed
    let al: [i128; 7] = [0, ms, 4 * ms, 5 * ms, 10 * ms, 13 * ms, 50 * ms];
    let ps: [i128; 3] = [5 * ms, 10 * ms, 12 * ms];
    let len = if r.thorough { 5 } else { 4 };
    let mut w = words(al.len() + 3, len);
    while let Some(word) = w.next() {
        let word = word.to_vec();
        let mut set = TimerSet::new([mk_d(ps[0]), mk_d(ps[1]), mk_d(ps[2])]);
        let mut per = ps;
        let mut acc = [0i128; 3];
        for &x in &word {
            if x >= al.len() {
                let j = x - al.len();
                *set.event_mut(j).unwrap() = TimerEvent::new(mk_d(ps[j] * 2));
                per[j] = ps[j] * 2;
                acc[j] = 0;
                continue;
            }
            let got = set.step(mk_d(al[x]));
            for j in 0..3 {
                acc[j] += al[x];
                let want = acc[j] >= per[j];
                acc[j] %= per[j];
                r.step();
                r.check(got[j] == want, "set", || format!("timer set {ps:?}: word {word:?} over {al:?}+rearm: timer {j} fired={}, exact {want}", got[j]));
            }
            r.state(h(format!("{per:?}{acc:?}").as_bytes()));
        }
        r.check(set.event_mut(3).is_none(), "event_mut", || "event_mut(3) of 3 timers is Some".into());
        r.trace();
    }
    // sets of other sizes: every timer of its own period
    fn sized<const N: usize>(r: &mut Run, steps: usize) {
        let per: [i128; N] = std::array::from_fn(|j| 1_000_000 * (j as i128 + 1) + (j % 3) as i128);
        let mut set = TimerSet::new(per.map(mk_d));
        let mut total = 0i128;
        for i in 0..steps {
            let d = [1_000_000i128, 0, 999_999, 7_500_001, 1, 123_456_789][(i * 5 + i / 7) % 6];
            let got = set.step(mk_d(d));
            for j in 0..N {
                let want = (total + d) / per[j] > total / per[j];
                r.step();
                if !r.check(got[j] == want, "set", || format!("set of {N} timers: step {i} ({d} ns at total {total}): timer {j} of period {} fired={}, exact {want}", per[j], got[j])) {
                    return;
                }
            }
            total += d;
        }
        r.check(set.event_mut(N).is_none() && (N == 0 || set.event_mut(N - 1).is_some()), "event_mut", || format!("set of {N} timers: event_mut at its end"));
        r.states_distinct(1);
        r.trace();
    }
    sized::<0>(r, 10);
    sized::<1>(r, 5000);
    sized::<2>(r, 5000);
    sized::<7>(r, 5000);
    sized::<33>(r, 1000);
    sized::<300>(r, 300);
    r.section("timer sets");
    r.bounds.push(format!("10 periods x all words of length {len} over 8 relative steps; sets of 3 with re-arming"));
    r.assumptions.push("periods are positive and steps non-negative".into());
}

// -------------------------------------------------------------- schedules
#[derive(Clone, Copy, Debug)]
enum P {
    Once,
    Int(i128),
    Hourly(i64, i64),
    Daily(i64, i64, i64),
    Yearly(i64, i64, i64, i64, i64),
}
fn year_of(ns: i128) -> i64 {
    let day = ns.div_euclid(86_400 * G) as i64;
    let mut y = 1970 + day.div_euclid(366);
    // start at or below, walk up
    while year_start(y) > day {
        y -= 1;
    }
    while year_start(y + 1) <= day {
        y += 1;
    }
    y
}
/// First instant strictly after `t` that matches the pattern.
fn first_after(p: P, t: i128) -> i128 {
    match p {
        P::Hourly(m, s) => {
            let per = 3600 * G;
            let ph = (m * 60 + s) as i128 * G;
            t - (t - ph).rem_euclid(per) + per
        }
        P::Daily(hh, m, s) => {
            let per = 86_400 * G;
            let ph = (hh * 3600 + m * 60 + s) as i128 * G;
            t - (t - ph).rem_euclid(per) + per
        }
        P::Yearly(mo, d, hh, m, s) => {
            let mut y = year_of(t) - 1;
            loop {
                let mut day = year_start(y);
                for k in 1..mo {
                    day += mdays(y, k);
                }
                day += d - 1;
                let x = (day * 86_400 + hh * 3600 + m * 60 + s) as i128 * G;
                if x > t {
                    return x;
                }
                y += 1;
            }
        }
        P::Once | P::Int(_) => unreachable!(),
    }
}
fn pat(p: P) -> Recurrence {
    match p {
        P::Once => Recurrence::Once,
        P::Int(n) => Recurrence::Interval(mk_d(n)),
        P::Hourly(m, s) => Recurrence::Hourly { minute: m as u8, second: s as u8 },
        P::Daily(a, b, c) => Recurrence::Daily { hour: a as u8, minute: b as u8, second: c as u8 },
        P::Yearly(a, b, c, d, e) => Recurrence::Yearly { month: a as u8, day: b as u8, hour: c as u8, minute: d as u8, second: e as u8 },
    }
}

fn t05(r: &mut Run) {
    let day = 86_400 * G;
    let starts: Vec<i128> = {
        let mut v = vec![];
        for (y, mo, d, tod, n) in [
            (1970i64, 1i64, 1i64, 0i64, 0i128),
            (1969, 12, 31, 86_399, 999_999_999),
            (2024, 2, 28, 86_399, 1),
            (2023, 12, 31, 86_399, 0),
            (2000, 2, 29, 3_599, 500_000_000),
            (1950, 6, 15, 43_200, 0),
            (2099, 3, 1, 1, 0),
            (2400, 2, 29, 86_399, 5),
            (1583, 11, 30, 1, 0),
            (-43, 3, 15, 40_000, 999_999_999),
        ] {
            let mut dd = year_start(y);
            for k in 1..mo {
                dd += mdays(y, k);
            }
            v.push(((dd + d - 1) * 86_400 + tod) as i128 * G + n);
        }
        v
    };
    let pats = [
        (P::Once, vec![0, 1, G, day]),
        (P::Int(1), vec![0, 1, 2, 3, 7, 100]),
        (P::Int(100_000_000), vec![0, 1, 99_999_999, 100_000_000, 250_000_000, G]),
        (P::Int(5 * G), vec![0, G, 4_999_999_999, 5 * G, 12 * G, 60 * G]),
        (P::Int(1_500_000_001), vec![0, 1, 500_000_000, 1_500_000_001, 3 * G, 10 * G]),
        (P::Hourly(0, 0), vec![0, 1, G, 1799 * G, 3600 * G, 3600 * G - 1, 9000 * G]),
        (P::Hourly(59, 59), vec![0, 1, G, 1799 * G, 3600 * G, 3600 * G - 1, 9000 * G]),
        (P::Hourly(30, 15), vec![0, 1, G, 1815 * G, 3600 * G, 7199 * G, day]),
        (P::Daily(0, 0, 0), vec![0, 1, G, day / 2, day - 1, day, 3 * day + 5]),
        (P::Daily(23, 59, 59), vec![0, 1, G, day / 2, day - 1, day, 3 * day + 5]),
        (P::Daily(12, 30, 1), vec![0, 1, G, day / 2, day - 1, day, 3 * day + 5]),
        (P::Yearly(1, 1, 0, 0, 0), vec![0, 1, G, 30 * day, 365 * day, 366 * day, 800 * day]),
        (P::Yearly(12, 31, 23, 59, 59), vec![0, 1, G, 30 * day, 365 * day, 366 * day, 800 * day]),
        (P::Yearly(2, 28, 12, 0, 0), vec![0, 1, G, 30 * day, 365 * day, 366 * day, 800 * day]),
        (P::Yearly(3, 1, 0, 0, 1), vec![0, 1, G, 30 * day, 365 * day, 366 * day, 800 * day]),
        (P::Yearly(7, 4, 6, 30, 0), vec![0, 1, 100 * day, 30 * day, 365 * day, 366 * day, 800 * day]),
    ];
    let len = if r.thorough { 6 } else { 4 };
    for (p, al) in &pats {
        for &st in &starts {
            let p = *p;
            let fresh = UtcSchedule::new(mk_t(st), pat(p));
            let first = match p {
                P::Once => st,
                P::Int(n) => st + n,
                _ => first_after(p, st),
            };
            r.step();
            r.check(ns_t(fresh.next_fire()) == first && canon(fresh.next_fire().nano_sec), "first", || {
                format!("{p:?} started at {}: first fire {}, exact {}", show(st), show(ns_t(fresh.next_fire())), show(first))
            });
            // two extra letters: jump to exactly the next fire / one ns before it
            let mut w = words(al.len() + 2, len);
            while let Some(word) = w.next() {
                let word = word.to_vec();
                let mut s = UtcSchedule::new(mk_t(st), pat(p));
                let mut next = Some(first);
                let mut now = st;
                for (i, &x) in word.iter().enumerate() {
                    if x < al.len() {
                        now += al[x];
                    } else if let Some(n) = next {
                        now = now.max(n - (x - al.len()) as i128);
                    } else {
                        now += 1;
                    }
                    r.here(|| format!("{p:?} start {} word {word:?}", show(st)));
                    let want = next.is_some_and(|n| now >= n);
                    if want {
                        next = match p {
                            P::Once => None,
                            P::Int(per) => {
                                let n = next.unwrap();
                                Some(n + ((now - n) / per + 1) * per)
                            }
                            _ => Some(first_after(p, now)),
                        };
                    }
                    let got = s.check(mk_t(now));
                    r.step();
                    r.check(got == want, "check", || {
                        format!("{p:?} started at {}: check #{} at {} fired={got}, exact {want} (word {word:?})", show(st), i + 1, show(now))
                    });
                    if let Some(n) = next {
                        r.check(ns_t(s.next_fire()) == n, "next", || {
                            format!("{p:?} started at {}: after check at {} next fire is {}, exact {}", show(st), show(now), show(ns_t(s.next_fire())), show(n))
                        });
                    }
                    r.state(h(format!("{p:?}{next:?}{now}").as_bytes()));
                    r.outcome(h(&[got as u8, i as u8]));
                }
                r.trace();
                r.sample(|| format!("{p:?} from {} word {word:?}", show(st)));
            }
        }
    }
    r.section("schedules: all check histories");
    // intervals of every length, checked after every number of missed periods
    for &st in &starts {
        for per in [1, 1000, 100_000_000, G, 1_500_000_001, 3600 * G, day, 365 * day + 1, 300 * 366 * day] {
            for k in [0, 1, 2, 9, 10, 99, 100, 255, 256, 999, 1000, 1024, 10_000, 65_536i128] {
                for e in [-1, 0, 1] {
                    let mut s = UtcSchedule::new(mk_t(st), pat(P::Int(per)));
                    let (now, mut next) = (st + k * per + e, st + per);
                    if now < st {
                        continue;
                    }
                    for step in [0, 0, per - 1, per, 3 * per] {
                        let at = now + step;
                        let want = at >= next;
                        if want {
                            next += ((at - next) / per + 1) * per;
                        }
                        let got = s.check(mk_t(at));
                        r.step();
                        r.check(got == want && ns_t(s.next_fire()) == next, "missed", || format!("interval {per} ns from {}: check at {} fired={got}, next {}; exact {want}, {}", show(st), show(at), show(ns_t(s.next_fire())), show(next)));
                    }
                    r.states_distinct(1);
                    r.trace();
                }
            }
        }
    }
    r.section("intervals after missed periods");
    // exhaustive phases: every (minute, second) of the hour / every day of the year
    for &st in &starts {
        for m in 0..60 {
            for s in 0..60 {
                for p in [P::Hourly(m, s), P::Daily((m * 7 + s) % 24, m, s)] {
                    for off in [0, -1, 1, 1800 * G] {
                        let a = st + off;
                        let got = ns_t(UtcSchedule::new(mk_t(a), pat(p)).next_fire());
                        r.step();
                        r.check(got == first_after(p, a), "phase", || format!("{p:?} from {}: {} exact {}", show(a), show(got), show(first_after(p, a))));
                    }
                    r.states_distinct(1);
                }
            }
        }
        for mo in 1..=12 {
            for d in 1..=mdays(2023, mo) {
                let p = P::Yearly(mo, d, (d + mo) % 24, (d * 2) % 60, (mo * 5) % 60);
                let mut a = st;
                let mut s = UtcSchedule::new(mk_t(a), pat(p));
                for _ in 0..9 {
                    let want = first_after(p, a);
                    let got = ns_t(s.next_fire());
                    r.step();
                    r.check(got == want, "yearly", || format!("{p:?} after {}: {} exact {}", show(a), show(got), show(want)));
                    let early = s.check(mk_t(want - 1));
                    let on = s.check(mk_t(want));
                    r.check(!early && on, "yearly_fire", || format!("{p:?} at {}: early={early} on-time={on}", show(want)));
                    a = want;
                }
                r.states_distinct(1);
                r.trace();
            }
        }
    }
    r.section("every phase of the hour, day and year");
    // alarms: exactly one report, at the first check at or after the target
    let al: [i128; 5] = [0, 1, G - 1, G, 5 * G];
    for off in [-1i128, 0, 1, G, 3 * G + 5] {
        for &st in &starts {
            let target = st + off;
            let mut w = words(al.len(), if r.thorough { 6 } else { 5 });
            while let Some(word) = w.next() {
                let mut a = UtcAlarm::new(mk_t(target));
                let mut now = st - 1;
                let mut done = false;
                for &x in word {
                    now += al[x];
                    let want = !done && now >= target;
                    done |= want;
                    let got = a.check(mk_t(now));
                    r.step();
                    r.check(got == want && a.is_done() == done, "alarm", || format!("alarm at {} checked at {}: {got}, is_done {}; exact {want}, {done}", show(target), show(now), a.is_done()));
                }
                r.trace();
            }
        }
    }
    // ... also when the clock is set back between the checks
    let al: [i128; 9] = [-86_400 * G, -3601 * G, -G, -1, 0, 1, 2 * G, 7200 * G, 400 * 86_400 * G];
    for off in [0, 1, 3 * G + 5, 100_000 * G] {
        for &st in &starts {
            let target = st + off;
            let mut w = words(al.len(), if r.thorough { 5 } else { 4 });
            while let Some(word) = w.next() {
                let mut a = UtcAlarm::new(mk_t(target));
                let mut now = st - 1;
                let mut done = false;
                for &x in word {
                    now += al[x];
                    let want = !done && now >= target;
                    done |= want;
                    let got = a.check(mk_t(now));
                    r.step();
                    r.check(got == want && a.is_done() == done, "alarm", || format!("alarm at {} checked at {} after {word:?}: {got}, is_done {}; exact {want}, {done}", show(target), show(now), a.is_done()));
                }
                r.trace();
            }
        }
    }
    r.section("alarms");
    r.bounds.push(format!("16 patterns x 10 starts x all check histories of length {len}; all 3600 hourly phases; all 365 yearly dates over 9 years"));
    r.assumptions.push("interval periods are positive; checks come with non-decreasing instants; 29 February as a yearly date is not in the domain".into());
}

// --------------------------------------------------------------- GPS weeks
fn t06(r: &mut Run) {
    let hints: Vec<u32> = {
        let hi = if r.thorough { 9_000 } else { 4_200 };
        let mut v: Vec<u32> = (0..hi).collect();
        for b in [65_536u32, 1 << 20, 1 << 31, u32::MAX - 4096] {
            for e in 0..1100 {
                v.push(b + e);
            }
        }
        v
    };
    for raw in 0..1024i64 {
        let t = Time::<GPS>::new((raw + 1024 * (raw % 3)) * 604_800 + (raw * 591) % 604_800, 3);
        for &hint in &hints {
            let g = t.to_gps_week(hint);
            r.step();
            let (f, hnt) = (g.full_week as i64, hint as i64);
            let d = (f - hnt).abs();
            // nearest non-negative week congruent to raw
            let lo = hnt - (hnt - raw).rem_euclid(1024);
            let best = if lo < 0 { lo + 1024 - hnt } else { (hnt - lo).min(lo + 1024 - hnt) };
            r.check(g.raw_week as i64 == raw && f % 1024 == raw && d == best, "rollover", || {
                format!("raw week {raw} near week {hint}: full week {f} (raw {}), nearest is {best} weeks away", g.raw_week)
            });
        }
        r.states_distinct(hints.len() as u64);
        r.trace();
        r.outcome(h(&raw.to_le_bytes()));
    }
    r.section("all raw weeks x hints");
    let mut sows: Vec<i64> = vec![0, 1, 2, 3599, 86_399, 86_400, 302_400, 604_798, 604_799];
    if r.thorough {
        sows.extend((0..604_800).step_by(997));
    }
    for week in -2100..6200i64 {
        for &sow in &sows {
            let t = Time::<GPS>::new(week * 604_800 + sow, 999_999_999);
            let hint = week.max(0) as u32;
            let g = t.to_gps_week(hint);
            r.step();
            r.check(g.sow == sow && g.raw_week as i64 == week.rem_euclid(1024), "week_sow", || {
                format!("GPS second {} = week {week} + {sow}: got raw {} sow {}", t.sec, g.raw_week, g.sow)
            });
            if week >= 0 {
                r.check(g.full_week as i64 == week, "full", || format!("week {week} with exact hint resolved to {}", g.full_week));
                for dh in [-511i64, -1, 1, 511] {
                    if week + dh >= 0 {
                        let g = t.to_gps_week((week + dh) as u32);
                        r.step();
                        r.check(g.full_week as i64 == week, "full", || format!("week {week} with hint {} resolved to {}", week + dh, g.full_week));
                    }
                }
            }
            r.sample(|| format!("GPS week {week} sow {sow} -> {g:?}"));
        }
        r.states_distinct(sows.len() as u64);
        r.trace();
    }
    r.section("week and second of week");
    // weeks at which seconds, weeks or both outgrow a smaller integer
    for c in [7101i64, 14_202, 32_768, 65_536, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 15_250_284_452_470] {
        for week in (-3..=3).flat_map(|e| [c + e, -c + e]) {
            for sow in [0, 1, 302_400, 604_799] {
                let Some(sec) = week.checked_mul(604_800).and_then(|x| x.checked_add(sow)) else { continue };
                let t = Time::<GPS>::new(sec, 0);
                let g = t.to_gps_week(2000);
                let raw = week.rem_euclid(1024);
                r.step();
                r.check(g.sow == sow && g.raw_week as i64 == raw && g.full_week as i64 % 1024 == raw && (g.full_week as i64 - 2000).abs() <= 512, "far_week", || {
                    format!("GPS second {sec} = week {week} + {sow}: {g:?}")
                });
                if (0..u32::MAX as i64 - 2048).contains(&week) {
                    for dh in [-511i64, 0, 511] {
                        let g = t.to_gps_week((week + dh) as u32);
                        r.step();
                        r.check(g.full_week as i64 == week, "far_full", || format!("week {week} with hint {} resolved to {}", week + dh, g.full_week));
                    }
                }
                r.states_distinct(1);
                r.trace();
            }
        }
    }
    r.section("weeks far away");
    r.bounds.push(format!("1024 raw weeks x {} hints; weeks -2100..6200 x {} seconds of week", hints.len(), sows.len()));
    r.assumptions.push("hint at least 1024 weeks below u32::MAX".into());
}

// --------------------------------------------------------------- timekeeper
fn t07(r: &mut Run) {
    set_leap_seconds(27);
    let rates: [u64; 14] = [1, 2, 3, 7, 10, 1000, 32_768, 1_000_000, 72_000_000, 168_000_000, 1_000_000_000, 1 << 32, 3_333_333_333, u64::MAX];
    let starts: [u64; 8] = [0, 1, 12_345, (1 << 32) - 1, 1 << 63, u64::MAX - 1000, u64::MAX - 1, u64::MAX];
    let exact = |ticks: u64, rate: u64| -> i128 { (ticks as u128 * 1_000_000_000u128 / rate as u128) as i128 };
    for &rate in &rates {
        let mut offs: Vec<u64> = vec![0, 1, 2, 3, 10, 999, 1000, 1001];
        for b in [rate, rate.saturating_mul(2), rate.saturating_mul(3600), rate / 2, rate / 3, rate / 7 * 5, rate.saturating_mul(86_400 * 365)] {
            for e in -2..=2i64 {
                offs.push(b.wrapping_add(e as u64));
            }
        }
        offs.extend([1u64 << 31, 1 << 32, (1 << 32) + 1, 1 << 62]);
        for &t0 in &starts {
            for &m in &[(0i64, 0i32), (1_700_000_000, 999_999_999), (-5, 1), (315_964_819, 500_000_000)] {
                let mission = MissionEpoch::new_tai(Time::new(m.0, m.1));
                let ku = TimeKeeper::<UTC>::new(mission, t0, rate);
                let kg = TimeKeeper::<GPS>::new(mission, t0, rate);
                let kt = TimeKeeper::<TAI>::new(mission, t0, rate);
                let start = m.0 as i128 * G + m.1 as i128;
                let mut prev = (0u64, i128::MIN);
                let mut sorted = offs.clone();
                sorted.sort();
                for &o in &sorted {
                    if o / rate > 1 << 61 {
                        continue;
                    }
                    let now = t0.wrapping_add(o);
                    let e = exact(o, rate);
                    r.step();
                    let tp = kt.t_plus(now);
                    r.check(ns_t(tp) == e && canon(tp.nano_sec), "t_plus", || format!("rate {rate}, ticks0 {t0}, now {now}: T+ {tp:?}, exact {}", show(e)));
                    let a = kt.now_tai(now);
                    r.check(ns_t(a) == start + e && canon(a.nano_sec), "now_tai", || format!("rate {rate}, ticks0 {t0}, now {now}: TAI {a:?}, exact {}", show(start + e)));
                    let u = ku.now_utc(now);
                    r.check(ns_t(u) == start + e - 37 * G, "now_utc", || format!("rate {rate} now {now}: UTC {u:?}"));
                    let g = kg.now_gps(now);
                    r.check(ns_t(g) == start + e - (19 + UNIX_GPS_EPOCH as i128) * G, "now_gps", || format!("rate {rate} now {now}: GPS {g:?}"));
                    r.check(prev.1 <= ns_t(tp), "monotone", || format!("rate {rate}: T+ fell between tick offsets {} and {o}", prev.0));
                    prev = (o, ns_t(tp));
                    let mut last = t0;
                    let d = kt.dt_from_ticks(&mut last, now);
                    r.check(ns_d(d) == e && canon(d.nano_sec) && last == now, "dt", || format!("rate {rate}: dt {t0}->{now} = {d:?}, last {last}; exact {}", show(e)));
                    r.states_distinct(1);
                    r.sample(|| format!("rate {rate} ticks0 {t0} now {now}: T+ {}", show(e)));
                }
                r.trace();
            }
        }
    }
    r.section("every rate x start x offset");
    // histories of dt readings across the counter wrap
    let al: [u64; 6] = [0, 1, 999, 1000, 1_000_003, 1 << 40];
    let len = if r.thorough { 7 } else { 6 };
    for &rate in &[3u64, 1000, 32_768, 168_000_000] {
        for &t0 in &[0u64, u64::MAX - 1500] {
            let k = TimeKeeper::<TAI>::new(MissionEpoch::new_tai(Time::new(0, 0)), t0, rate);
            let mut w = words(al.len(), len);
            while let Some(word) = w.next() {
                let mut last = t0;
                let mut now = t0;
                let (mut sum, mut ticks) = (0i128, 0u64);
                for &x in word {
                    now = now.wrapping_add(al[x]);
                    ticks += al[x];
                    let d = k.dt_from_ticks(&mut last, now);
                    sum += ns_d(d);
                    r.step();
                    r.check(ns_d(d) == exact(al[x], rate) && last == now, "dt_hist", || format!("rate {rate}: step of {} ticks = {d:?}", al[x]));
                }
                let gap = exact(ticks, rate) - sum;
                r.check((0..=len as i128).contains(&gap), "dt_sum", || format!("rate {rate}: {len} readings sum to {gap} ns less than the whole"));
                r.state(h(&[now.to_le_bytes(), rate.to_le_bytes()].concat()));
                r.outcome(h(&gap.to_le_bytes()));
                r.trace();
            }
        }
    }
    r.section("dt histories across the wrap");
    for leaps in [27, 0, 40] {
        set_leap_seconds(leaps);
        for s in [0i64, 1_000_000_000, -7] {
            let m = MissionEpoch::new_utc(Time::new(s, 5));
            r.step();
            r.check(ns_t(m.start()) == (s + 10 + leaps as i64) as i128 * G + 5, "mission", || format!("{m:?}"));
            let e = Epoch::<TAI>::new(m, 3, 10);
            r.check(ns_t(e.t_plus(15)) == 1_200_000_000 && ns_t(e.mission().start()) == ns_t(m.start()), "epoch", || format!("{e:?}"));
        }
    }
    set_leap_seconds(27);
    let _ = guard(|| ());
    r.bounds.push(format!("14 tick rates x 8 counter starts x 4 epochs x ~45 offsets; words of {len} readings"));
    r.assumptions.push("elapsed seconds fit in i64".into());
}

fn main() {
    kit_main(&[("T01", t01), ("T02", t02), ("T03", t03), ("T04", t04), ("T05", t05), ("T06", t06), ("T07", t07)])
}
