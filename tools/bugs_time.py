from bugkit import bug
S='crates/aether_time/src/time/'
bug('t01-cycle-last-day','T01',['aether_time'],
 [(S+'schedule.rs','doe / 36_524 - doe / 146_096','doe / 36_524')],
 '''
use aether_time::time::*;
fn main() {
    // 29 February closes a 400-year cycle of the March-based calendar
    for y in [1600, 2000, 2400] {
        let want = UtcDateTime::new(y, 2, 29, 12, 0, 0, 7);
        let t = Time::<UTC>::from_utc_datetime(want);
        let got = t.to_utc_datetime();
        assert!(got == want, "{got:?} != {want:?}");
    }
}
''','29 February of a year divisible by 400','that single day converts to a wrong civil date')
bug('t02-ref-add-carry','T02',['aether_time'],
 [(S+'duration.rs','''    fn add(self, rhs: Duration) -> Time<TS> {
        let mut sec = self.sec + rhs.sec;
        let mut nano_sec = self.nano_sec + rhs.nano_sec;
        if nano_sec >= 1_000_000_000 {''','''    fn add(self, rhs: Duration) -> Time<TS> {
        let mut sec = self.sec + rhs.sec;
        let mut nano_sec = self.nano_sec + rhs.nano_sec;
        if nano_sec > 1_000_000_000 {''')],
 '''
use aether_time::time::*;
fn main() {
    let t = Time::<TAI>::new(5, 400_000_000);
    let x = &t + Duration { sec: 0, nano_sec: 600_000_000 };
    assert!(x.sec == 6 && x.nano_sec == 0, "{x:?}");
}
''','by-reference addition whose nanoseconds sum to exactly one second','the result carries 1e9 nanoseconds and compares unequal to the same instant')
bug('t03-now-gps-two-reads','T03',['aether_time'],
 [(S+'mission.rs','self.now_tai(ticks).to_gps()','self.now_tai(ticks).to_utc().to_gps()')],
 '''
use aether_time::time::*;
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    // GPS time does not depend on the leap second count at all
    let k = TimeKeeper::<GPS>::new(MissionEpoch::new_tai(Time::new(1_000_000_000, 0)), 0, 1000);
    let want = 1_000_000_000 - 19 - UNIX_GPS_EPOCH;
    let stop = AtomicBool::new(false);
    let bad = std::thread::scope(|s| {
        for w in 0..3 {
            let stop = &stop;
            s.spawn(move || { let mut l = w; while !stop.load(Ordering::Relaxed) { l ^= 64; set_leap_seconds(l); } });
        }
        let t0 = std::time::Instant::now();
        let mut bad = 0u64;
        while bad == 0 && t0.elapsed().as_secs() < 15 {
            for _ in 0..10_000 { if k.now_gps(0).sec != want { bad += 1; } }
        }
        stop.store(true, Ordering::Relaxed);
        bad
    });
    assert!(bad == 0, "GPS reading moved while leap seconds were updated");
}
''','a leap second update between the two reads of the count','a GPS reading mixes two leap second counts and is off by their difference')
bug('t04-multi-period','T04',['aether_time'],
 [(S+'mission.rs','''            while self.acc >= self.period {
                self.acc = self.acc - self.period;
            }''','''            self.acc = self.acc - self.period;
            if self.acc >= self.period {
                self.acc = self.acc - self.period;
            }''')],
 '''
use aether_time::time::*;
fn main() {
    let ms = Duration::from_millis;
    let mut t = TimerEvent::new(ms(10));
    assert!(t.step(ms(35)));
    assert!(!t.step(ms(4)), "39 ms: no multiple of 10 ms crossed");
    assert!(t.step(ms(1)));
}
''','a step of three or more periods','surplus periods are kept and reported as firings on later short steps')
bug('t05-hourly-phase','T05',['aether_time'],
 [(S+'schedule.rs','''        next_sec += SECS_PER_HOUR;
    }
    Time::<UTC>::new(next_sec, 0)''','''        next_sec += SECS_PER_HOUR;
    }
    Time::<UTC>::new(next_sec, after.nano_sec)''')],
 '''
use aether_time::time::*;
fn main() {
    let mut s = UtcSchedule::new(Time::new(10, 250_000_000), Recurrence::Hourly { minute: 30, second: 0 });
    assert!(s.next_fire() == Time::new(1800, 0), "{:?}", s.next_fire());
    assert!(s.check(Time::new(1800, 0)));
}
''','a start or check instant with a fractional second','hourly schedules fire late by the fraction of the previous check')
bug('t05-yearly-same-instant','T05',['aether_time'],
 [(S+'schedule.rs','if candidate <= after {','if candidate.sec < after.sec {')],
 '''
use aether_time::time::*;
fn main() {
    let due = Time::<UTC>::from_utc_datetime(UtcDateTime::new(2025, 7, 4, 6, 30, 0, 0));
    let start = Time::<UTC>::from_utc_datetime(UtcDateTime::new(2025, 1, 1, 0, 0, 0, 0));
    let mut s = UtcSchedule::new(start, Recurrence::Yearly { month: 7, day: 4, hour: 6, minute: 30, second: 0 });
    assert!(s.check(due));
    assert!(!s.check(Time::new(due.sec, 500_000_000)), "fired twice for one due instant");
    assert!(s.next_fire() > due);
}
''','a check within the due second itself','a yearly schedule fires again and again during its due second')
bug('t06-upper-window-edge','T06',['aether_time'],
 [(S+'gps.rs','if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() {','if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() + 2 {')],
 '''
use aether_time::time::*;
fn main() {
    for hint in 1024u32..4096 {
        for d in -511i64..=511 {
            let w = hint as i64 + d;
            let g = Time::<GPS>::new(w * 604_800 + 1, 0).to_gps_week(hint);
            assert!(g.full_week as i64 == w, "week {w} near {hint} resolved to {}", g.full_week);
        }
    }
}
''','a raw week that lies just under half a cycle after the hint, across the rollover','the week resolves to the farther of two candidates')
bug('t07-fixed-ns-per-tick','T07',['aether_time'],
 [(S+'mission.rs','''        let nano = ((frac * 1_000_000_000u128) / (self.ticks_per_sec as u128)) as i32;
        Duration { sec, nano_sec: nano }
    }

    pub fn t_plus''','''        let nano = if self.ticks_per_sec < 1_000_000_000 {
            (frac * 1_000_000_000u128 / self.ticks_per_sec as u128) as i32
        } else {
            (frac as f64 / self.ticks_per_sec as f64 * 1e9) as i32
        };
        Duration { sec, nano_sec: nano }
    }

    pub fn t_plus''')],
 '''
use aether_time::time::*;
fn main() {
    let k = TimeKeeper::<TAI>::new(MissionEpoch::new_tai(Time::new(0, 0)), 0, 1_000_000_000);
    for t in 0u64..3_000_000 {
        let x = k.t_plus(t);
        assert!(x.nano_sec as u64 == t, "{t} ns of ticks read as {x:?}");
    }
}
''','a tick rate of 1 GHz or more and particular counts','readings are one nanosecond short for some tick counts')
