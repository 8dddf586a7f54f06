use mpstthree::binary::cancel::cancel;
use mpstthree::binary::struct_trait::{end::End, session::Session};
use mpstthree::binary_atmp::recv::recv;
use mpstthree::binary_atmp::send::{send, send_without_reset};
use mpstthree::binary_atmp::choose::{choose_left, choose_right, ChooseTimed};
use mpstthree::binary_atmp::offer::{offer_either, OfferTimed};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use std::collections::HashMap;
use std::time::{Duration, Instant};
use vmon::json::esc;
use vmon::*;

type Clocks = HashMap<char, Instant>;

/// 1 = inside the window, 0 = outside, for an elapsed time
fn inside(el: Duration, s: i128, is: bool, e: i128, ie: bool) -> bool {
    let secs = el.as_secs() as i128;
    let lo = s < 0 || if is { secs >= s } else { secs > s };
    let hi = e < 0 || if ie { el <= Duration::from_secs(e as u64) } else { secs < e };
    lo && hi
}

/// `c` is the constrained clock and `s`, `e` are its bounds
fn clocks(rng: &mut Rng, c0: char, s: i128, e: i128) -> (Clocks, HashMap<char, Duration>) {
    let mut c = HashMap::new();
    let mut d = HashMap::new();
    for k in ['a', 'b', 'c'] {
        if k == 'c' && rng.chance(1, 2) { continue; }
        let secs = match rng.below(8) { 0 => 0, 1..=6 => rng.below(5), _ => 5 + rng.below(40) };
        let frac = match rng.below(6) { 0 => 5_000, 1 => 300_000, 2 => 500_000, 3 => 900_000, 4 => 999_000, _ => rng.below(995_000) };
        let mut du = Duration::from_secs(secs) + Duration::from_micros(frac);
        let bound = if rng.chance(1, 2) { s } else { e };
        if k == c0 && bound >= 0 && rng.chance(1, 2) {
            // around one of the bounds: within a few milliseconds, within a second, one second away
            let b = Duration::from_secs(bound as u64);
            let d = Duration::from_micros(match rng.below(3) { 0 => 50 + rng.below(9_000), 1 => rng.below(1_000_000), _ => 1_000_000 + rng.below(5_000) });
            du = if rng.chance(1, 2) { b.saturating_sub(d) } else { b + d };
        }
        if let Some(t) = Instant::now().checked_sub(du) { c.insert(k, t); d.insert(k, du); }
    }
    (c, d)
}

fn show(c: &Clocks) -> String {
    let mut v: Vec<_> = c.iter().map(|(k, t)| format!("{k}={:.4}s", t.elapsed().as_secs_f64())).collect();
    v.sort();
    v.join(" ")
}

/// clock discipline: keys kept; only `reset` moved, and to an instant within the call
fn clock_rule(before: &Clocks, after: &Clocks, reset: Option<char>, t0: Instant, t1: Instant) -> Option<String> {
    let mut kb: Vec<_> = before.keys().collect();
    let mut ka: Vec<_> = after.keys().collect();
    kb.sort(); ka.sort();
    if kb != ka { return Some(format!("the set of clocks changed from {kb:?} to {ka:?}")); }
    for (k, b) in before {
        let a = after[k];
        if Some(*k) == reset {
            if a < t0 || a > t1 { return Some(format!("clock {k} declared reset was not reset: it reads {:?} right after the operation (it read {:?} before)", t1.saturating_duration_since(a), t0.saturating_duration_since(*b))); }
        } else if a != *b {
            return Some(format!("clock {k} changed although the operation does not reset it"));
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq)]
enum Exp { Ok, Fail, Any }

#[allow(clippy::too_many_arguments)]
fn expect(c: char, s: i128, is: bool, e: i128, ie: bool, orig: Option<Instant>, t0: Instant, t1: Instant) -> Exp {
    if s < 0 && e < 0 { return if is || ie { Exp::Any } else { Exp::Ok }; }
    if s >= 0 && e >= 0 && s > e { return Exp::Fail; }
    let _ = c;
    let Some(o) = orig else { return Exp::Fail };
    let (a, b) = (inside(t0 - o, s, is, e, ie), inside(t1 - o, s, is, e, ie));
    if a != b || (t0 - o).as_secs() != (t1 - o).as_secs() { return Exp::Any; }
    if a { Exp::Ok } else { Exp::Fail }
}

fn cfgname(c: char, s: i128, is: bool, e: i128, ie: bool, r: char) -> String {
    let l = if s < 0 { "(-inf".to_string() } else { format!("{}{s}", if is { '[' } else { '(' }) };
    let h = if e < 0 { "+inf)".to_string() } else { format!("{e}{}", if ie { ']' } else { ')' }) };
    format!("clock {c} in {l},{h} reset {r:?}")
}

#[derive(Clone, Copy, PartialEq)]
enum Op { Send, SendNr, Left, Right }

fn send_case<const C: char, const S: i128, const IS: bool, const E: i128, const IE: bool, const RS: char>(rng: &mut Rng, st: &mut Stats, name: &'static str, op: Op) {
    let (mut cl, _) = clocks(rng, C, S, E);
    let before = cl.clone();
    let dead = rng.chance(1, 6);
    let uid = rng.next();
    let desc = cfgname(C, S, IS, E, IE, RS);
    let reset_missing = RS != ' ' && !before.contains_key(&RS);
    let opn = match op { Op::Send => "send", Op::SendNr => "send_without_reset", Op::Left => "choose_left", Op::Right => "choose_right" };
    let (res, got, t0, t1): (Result<bool, String>, Option<bool>, Instant, Instant);
    match op {
        Op::Send | Op::SendNr => {
            let (s, r) = <SendTimed<Tok, C, S, IS, E, IE, RS, End> as Session>::new();
            let mut r = Some(r);
            if dead { cancel(r.take().unwrap()); }
            t0 = Instant::now();
            res = guarded(|| if op == Op::Send { send(Tok::make(uid), &mut cl, s).is_ok() } else { send_without_reset(Tok::make(uid), &mut cl, s).is_ok() });
            t1 = Instant::now();
            got = r.as_ref().and_then(|r| r.channel.try_recv().ok()).map(|(t, _)| t.fp() == uid);
            if let Some(r) = &r {
                if got.is_some() && r.channel.try_recv().is_ok() { st.violation(name, "duplicate", &format!("{opn} delivered twice: {desc}"), "null".into()); }
            }
        }
        _ => {
            type L = mpstthree::binary::struct_trait::send::Send<u8, End>;
            type Rr = mpstthree::binary::struct_trait::recv::Recv<u8, End>;
            let (s, r) = <ChooseTimed<L, Rr, C, S, IS, E, IE, RS> as Session>::new();
            let mut r = Some(r);
            if dead { cancel(r.take().unwrap()); }
            t0 = Instant::now();
            res = guarded(|| if op == Op::Left { choose_left::<L, Rr, C, S, IS, E, IE, RS>(&mut cl, s).is_ok() } else { choose_right::<L, Rr, C, S, IS, E, IE, RS>(&mut cl, s).is_ok() });
            t1 = Instant::now();
            got = r.as_ref().and_then(|r| r.channel.try_recv().ok()).map(|(t, _)| t.is_left() == (op == Op::Left));
        }
    }
    let ok = matches!(res, Ok(true));
    let exp = expect(C, S, IS, E, IE, before.get(&C).copied(), t0, t1);
    let rst = if op == Op::SendNr { None } else { Some(RS).filter(|r| *r != ' ') };
    let ctx = format!("{opn}, {desc}, clocks before: {}, peer {}", show(&before), if dead { "gone" } else { "alive" });
    st.add("operations", 1);
    let det = esc(&format!("{ctx}; result {res:?}; delivered {got:?}"));
    if st.samples.len() < 2 { st.samples.push(esc(&format!("{ctx} -> {res:?}"))); }
    st.inter.insert(hash_str(&format!("{name}{opn}{ok}{dead}{:?}", before.get(&C).map(|t| t.elapsed().as_millis() / 250))));
    match exp {
        Exp::Ok if dead => {
            st.add("expected_failures_peer_gone", 1);
            if ok { st.violation(name, "dead-peer", &format!("{ctx}: succeeded although the peer is gone"), det.clone()); }
        }
        Exp::Ok if !(reset_missing && op != Op::SendNr) => {
            st.add("inside_window", 1);
            if !ok { st.violation(name, "rejected", &format!("{ctx}: the constraint is met but the operation failed ({res:?})"), det.clone()); }
            else if got != Some(true) { st.violation(name, "not-delivered", &format!("{ctx}: reported success but the peer got {got:?}"), det.clone()); }
        }
        Exp::Fail => {
            st.add("outside_window", 1);
            if ok { st.violation(name, "accepted", &format!("{ctx}: the constraint is not met but the operation succeeded"), det.clone()); }
            if got.is_some() { st.violation(name, "delivered-outside", &format!("{ctx}: the constraint is not met but the value was delivered"), det.clone()); }
        }
        _ => st.add("undecided_boundary", 1),
    }
    if !(exp == Exp::Any && S < 0 && E < 0) {
        let r = if ok { rst } else { None };
        st.add(if r.is_some() { "reset_checked" } else { "no_reset_checked" }, 1);
        if let Some(m) = clock_rule(&before, &cl, r, t0, t1) {
            st.violation(name, "clock", &format!("{ctx}: operation {}: {m}", if ok { "succeeded" } else { "failed" }), det);
        }
    }
}

/// receive (or offer) with the message already there
fn recv_case<const C: char, const S: i128, const IS: bool, const E: i128, const IE: bool, const RS: char>(rng: &mut Rng, st: &mut Stats, name: &'static str, offer: bool) {
    let (mut cl, _) = clocks(rng, C, S, E);
    let before = cl.clone();
    let uid = rng.next();
    let desc = cfgname(C, S, IS, E, IE, RS);
    let opn = if offer { "offer_either" } else { "recv" };
    let gone = rng.chance(1, 6);
    let left = rng.chance(1, 2);
    let (res, t0, t1): (Result<Result<u64, String>, String>, Instant, Instant);
    // the operation may only end when a message arrives or the peer is gone: a reaper ends runs that wait
    if offer {
        type L = mpstthree::binary::struct_trait::send::Send<u8, End>;
        type Rr = mpstthree::binary::struct_trait::recv::Recv<u8, End>;
        let (r, s) = <OfferTimed<L, Rr, C, S, IS, E, IE, RS> as Session>::new();
        let (here, there) = End::new();
        if !gone {
            let v = if left { either::Either::Left(<L as Session>::new().0) } else { either::Either::Right(<Rr as Session>::new().0) };
            s.channel.send((v, there)).unwrap();
        }
        drop(s);
        t0 = Instant::now();
        let mut seen = (false, None);
        let o: Result<Result<bool, String>, String> = guarded(|| offer_either(&mut cl, r,
            |c, x: L| { seen = (true, Some(c.clone())); drop(x); Ok(true) },
            |c, x: Rr| { let _ = c; drop(x); Ok(false) }).map_err(|e| e.to_string()));
        t1 = Instant::now();
        drop(here);
        res = o.map(|r| r.map(|b| if b == left { uid } else { uid ^ 1 }));
    } else {
        let (r, s) = <RecvTimed<Tok, C, S, IS, E, IE, RS, End> as Session>::new();
        let (here, there) = End::new();
        if !gone { let _ = s.channel.send((Tok::make(uid), there)); }
        drop(s);
        t0 = Instant::now();
        res = guarded(|| recv(&mut cl, r).map(|(v, _)| v.fp()).map_err(|e| e.to_string()));
        t1 = Instant::now();
        drop(here);
    }
    let ok = matches!(res, Ok(Ok(_)));
    let ctx = format!("{opn}, {desc}, clocks before: {}, message {}", show(&before), if gone { "never sent, sender gone" } else { "present" });
    let det = esc(&format!("{ctx}; result {res:?}"));
    let exp = expect(C, S, IS, E, IE, before.get(&C).copied(), t0, t1);
    st.add("operations", 1);
    st.inter.insert(hash_str(&format!("{name}{opn}{ok}{gone}{:?}", before.get(&C).map(|t| t.elapsed().as_millis() / 250))));
    let reset_missing = RS != ' ' && !before.contains_key(&RS);
    match exp {
        _ if gone => {
            st.add("expected_failures_peer_gone", 1);
            if ok { st.violation(name, "dead-peer", &format!("{ctx}: succeeded without a message"), det.clone()); }
        }
        Exp::Ok if !reset_missing => {
            st.add("inside_window", 1);
            match &res {
                Ok(Ok(v)) if *v == uid => {}
                Ok(Ok(_)) => st.violation(name, "corrupt", &format!("{ctx}: a different value was received"), det.clone()),
                x => st.violation(name, "rejected", &format!("{ctx}: the constraint is met and the message is there but the operation failed ({x:?})"), det.clone()),
            }
        }
        Exp::Fail => {
            st.add("outside_window", 1);
            if ok { st.violation(name, "accepted", &format!("{ctx}: the constraint is not met but the operation succeeded"), det.clone()); }
        }
        _ => st.add("undecided_boundary", 1),
    }
    if !(exp == Exp::Any && S < 0 && E < 0) {
        let r = if ok { Some(RS).filter(|r| *r != ' ') } else { None };
        st.add(if r.is_some() { "reset_checked" } else { "no_reset_checked" }, 1);
        if let Some(m) = clock_rule(&before, &cl, r, t0, t1) {
            st.violation(name, "clock", &format!("{ctx}: operation {}: {m}", if ok { "succeeded" } else { "failed" }), det);
        }
    }
}

/// receive that has to wait for the message, the end of the window, or the death of the sender
fn wait_case<const C: char, const S: i128, const IS: bool, const E: i128, const IE: bool, const RS: char>(rng: &mut Rng, st: &mut Stats, name: &'static str) {
    if C == 'z' || (RS != ' ' && RS != 'a' && RS != 'b') || (E < 0 && S < 0 && (IS || IE)) || (E >= 0 && S > E) { return; }
    let kind = if E >= 0 { rng.below(8) } else { rng.below(4) + 1 };
    let offer = rng.chance(1, 3);
    // now and then the wait is a long one; `slow` is the longest of all, a few times per process
    static SLOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let slow = (E < 0 || E - S > 10) && kind < 5 && kind != 0 && SLOW.fetch_update(std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst, |x| (x < 4).then_some(x + 1)).is_ok();
    let long = rng.chance(1, 60);
    for attempt in 0..4 {
        let now = Instant::now();
        // position of the clock: inside the window, `rem` before its end
        let rem = Duration::from_millis(if slow { 6_000 + rng.below(1_500) } else if long { 500 + rng.below(3_000) } else { 3 + rng.below(140) });
        // it starts inside the window
        let rem = if E >= 0 { rem.min(Duration::from_millis((((E - if S < 0 { 0 } else if IS { S } else { S + 1 }).max(1) * 1000 - 20) as u64).min(20_000))) } else { rem };
        let el = if E >= 0 {
            let lo = if S < 0 { 0 } else if IS { S } else { S + 1 };
            if lo >= E { return; }
            Duration::from_secs(E as u64).saturating_sub(rem)
        } else if S < 0 { Duration::from_millis(rng.below(3000)) } else { Duration::from_secs(S as u64 + 1) + Duration::from_millis(rng.below(3000)) };
        let Some(origin) = now.checked_sub(el) else { return };
        let mut cl: Clocks = HashMap::new();
        let other = now.checked_sub(Duration::from_millis(rng.below(9000))).unwrap_or(now);
        cl.insert('a', other);
        cl.insert('b', other);
        cl.insert(C, origin);
        let before = cl.clone();
        // 0: nothing, 1-2 sent before the end, 3: sent around the end, 4: sender dies, 5: nothing, 6: sent late, 7: death late
        let at = Duration::from_micros(match kind {
            _ if slow => rem.as_micros() as u64 - 1_200_000 - rng.below(100_000),
            1 | 2 | 4 => rng.below(rem.as_micros() as u64 + 1),
            3 => (rem.as_micros() as u64).saturating_sub(1500) + rng.below(3000),
            _ => rem.as_micros() as u64 + 60_000 + rng.below(60_000),
        });
        let uid = rng.next();
        type L = mpstthree::binary::struct_trait::send::Send<u8, End>;
        type Rr = mpstthree::binary::struct_trait::recv::Recv<u8, End>;
        let left = uid & 1 == 0;
        // the peer's endpoint lives in `s`, which delivers the message, or drops the endpoint when it is dropped
        let (op, s): (Box<dyn FnOnce(&mut Clocks) -> Result<u64, String>>, Box<dyn FnOnce() -> bool + Send>) = if offer {
            let (r, s) = <OfferTimed<L, Rr, C, S, IS, E, IE, RS> as Session>::new();
            (Box::new(move |cl| offer_either(cl, r, |_, x: L| { drop(x); Ok(true) }, |_, x: Rr| { drop(x); Ok(false) }).map(|b| if b == left { uid } else { uid ^ 1 }).map_err(|e| e.to_string())),
             Box::new(move || { let (_h, th) = End::new(); s.channel.send((if left { either::Either::Left(<L as Session>::new().0) } else { either::Either::Right(<Rr as Session>::new().0) }, th)).is_ok() }))
        } else {
            let (r, s) = <RecvTimed<Tok, C, S, IS, E, IE, RS, End> as Session>::new();
            (Box::new(move |cl| recv(cl, r).map(|(v, _)| v.fp()).map_err(|e| e.to_string())),
             Box::new(move || { let (_h, th) = End::new(); s.channel.send((Tok::make(uid), th)).is_ok() }))
        };
        let (done, done_rx) = std::sync::mpsc::channel::<()>();
        let send_thread = std::thread::spawn(move || {
            let t = now + at;
            match kind {
                0 | 5 => { let _ = done_rx.recv_timeout((now + rem + Duration::from_millis(900)).saturating_duration_since(Instant::now())); let b = Instant::now(); drop(s); (None, Some(b), false) }
                4 | 7 => { std::thread::sleep(t.saturating_duration_since(Instant::now())); let b = Instant::now(); drop(s); (Some(b), Some(b), false) }
                _ => {
                    std::thread::sleep(t.saturating_duration_since(Instant::now()));
                    let b = Instant::now();
                    let ok = s();
                    (Some(b), Some(Instant::now()), ok)
                }
            }
        });
        let t0 = Instant::now();
        let res = guarded(|| op(&mut cl));
        let t1 = Instant::now();
        let _ = done.send(());
        let (begin, end, sent) = send_thread.join().unwrap();
        let ok = matches!(res, Ok(Ok(_)));
        let wend = if E >= 0 { Some(origin + Duration::from_secs(E as u64)) } else { None };
        let ctx = format!("{}, {}, clock at {:.4}s, {}, peer: kind {kind} at +{:.4}s (window end at +{:?})", if offer { "offer_either" } else { "recv" }, cfgname(C, S, IS, E, IE, RS),
            (t0 - origin).as_secs_f64(), if ok { "received" } else { "failed" }, at.as_secs_f64(), wend.map(|w| w.saturating_duration_since(now)));
        let det = esc(&format!("{ctx}; result {res:?}; returned at +{:?}; send began +{:?} ended +{:?} ok={sent}", t1 - now, begin.map(|b| b - now), end.map(|b| b - now)));
        if wend.is_some_and(|w| t0 >= w) { st.add("undecided_boundary", 1); return; }
        st.add("waits", 1);
        st.add(&format!("wait_kind_{kind}"), 1);
        st.add("waits_of_half_a_second_or_more", (t1 - t0 > Duration::from_millis(500)) as u64);
        st.add("waits_of_five_seconds_or_more", (t1 - t0 > Duration::from_millis(4500)) as u64);
        st.add("waiting_offers", offer as u64);
        if st.samples.len() < 6 { st.samples.push(det.clone()); }
        st.inter.insert(hash_str(&format!("{name}w{kind}{ok}{}", (rem.as_millis() / 20))));
        let death = matches!(kind, 4 | 7 | 0 | 5);
        if let Ok(Ok(v)) = &res {
            if *v != uid || death { st.violation(name, "corrupt", &format!("{ctx}: a value was received that was never sent"), det.clone()); }
            else if !sent { st.violation(name, "corrupt", &format!("{ctx}: received although the send failed"), det.clone()); }
        } else {
            // failed: it must not have happened before the window closed, unless the sender was gone
            let gone_at = if death { end } else { None };
            let early = match wend { Some(w) => t1 < w, None => true };
            if early && gone_at.is_none_or(|g| t1 < g) {
                let m = if death { "although the sender was alive and the window open" } else { "before its window closed" };
                // the drop is timestamped before it happens, so a receiver can only fail after it
                st.violation(name, "early", &format!("{ctx}: failed {m}"), det.clone());
            }
            // a message whose send completed before the end of the window must be received
            if sent && wend.is_none_or(|w| end.unwrap() < w) {
                st.violation(name, "missed", &format!("{ctx}: the message was sent before the window closed, but the receive failed ({res:?})"), det.clone());
            }
        }
        // waiting far beyond the end of the window is only reported when it repeats
        let mut r = None;
        if ok { r = Some(RS).filter(|r| *r != ' '); }
        if let Some(m) = clock_rule(&before, &cl, r, t0, t1) {
            st.violation(name, "clock", &format!("{ctx}: {m}"), det.clone());
        }
        st.add(if r.is_some() { "reset_checked" } else { "no_reset_checked" }, 1);
        let late = ok && wend.is_some_and(|w| begin.unwrap() > w + Duration::from_millis(30));
        let over = wend.is_some_and(|w| t1 > w + Duration::from_millis(500));
        if !over && !late { return; }
        st.add("overshoots", 1);
        if attempt == 3 {
            if late { st.violation(name, "late", &format!("{ctx}: a message sent well after the window had closed was received, four times in a row"), det); }
            else { st.violation(name, "overshoot", &format!("{ctx}: the receive ended long after the end of its window, four times in a row"), det); }
        }
    }
}


/// receive or offer whose window has already closed (or not opened) while the peer is alive and silent: it must fail at once
fn closed_case<const C: char, const S: i128, const IS: bool, const E: i128, const IE: bool, const RS: char>(rng: &mut Rng, st: &mut Stats, name: &'static str) {
    if C == 'z' || E < 0 { return; }
    for attempt in 0..4 {
        let el = if S > 0 && rng.chance(1, 3) { Duration::from_millis(rng.below(S as u64 * 1000 - 200)) } else { Duration::from_secs(E as u64) + Duration::from_millis(1 + rng.below(5000)) };
        if S > 0 && el < Duration::from_secs(S as u64) && S > E { return; }
        let Some(origin) = Instant::now().checked_sub(el) else { return };
        let mut cl: Clocks = HashMap::from([('a', Instant::now()), ('b', Instant::now())]);
        cl.insert(C, origin);
        let before = cl.clone();
        type L = mpstthree::binary::struct_trait::send::Send<u8, End>;
        type Rr = mpstthree::binary::struct_trait::recv::Recv<u8, End>;
        let offer = rng.chance(1, 3);
        let (op, s): (Box<dyn FnOnce(&mut Clocks) -> Result<u64, String>>, Box<dyn std::any::Any + Send>) = if offer {
            let (r, s) = <OfferTimed<L, Rr, C, S, IS, E, IE, RS> as Session>::new();
            (Box::new(move |cl| offer_either(cl, r, |_, _: L| Ok(1), |_, _: Rr| Ok(2)).map_err(|e| e.to_string())), Box::new(s))
        } else {
            let (r, s) = <RecvTimed<Tok, C, S, IS, E, IE, RS, End> as Session>::new();
            (Box::new(move |cl| recv(cl, r).map(|(v, _)| v.fp()).map_err(|e| e.to_string())), Box::new(s))
        };
        let (done, done_rx) = std::sync::mpsc::channel::<()>();
        let h = std::thread::spawn(move || { let _ = done_rx.recv_timeout(Duration::from_millis(1500)); drop(s); });
        let t0 = Instant::now();
        let res = guarded(|| op(&mut cl));
        let t1 = Instant::now();
        let _ = done.send(());
        let _ = h.join();
        let ctx = format!("{}, {}, clock at {:.4}s, peer alive and silent; {res:?} after {:?}", if offer { "offer_either" } else { "recv" }, cfgname(C, S, IS, E, IE, RS), (t0 - origin).as_secs_f64(), t1 - t0);
        st.add("closed_windows", 1);
        st.inter.insert(hash_str(&format!("{name}c{}", el.as_millis() / 250)));
        if matches!(res, Ok(Ok(_))) { st.violation(name, "corrupt", &format!("{ctx}: received a value that was never sent"), esc(&ctx)); }
        if let Some(m) = clock_rule(&before, &cl, None, t0, t1) { st.violation(name, "clock", &format!("{ctx}: {m}"), esc(&ctx)); }
        if t1 - t0 < Duration::from_millis(400) { return; }
        if attempt == 3 { st.violation(name, "overshoot", &format!("{ctx}: the window was closed but the receive did not fail at once, four times in a row"), esc(&ctx)); }
    }
}

/// a timed operation that fails (or not): whatever its end, nothing of it stays connected (counted by the balance mode as well)
#[allow(dead_code)]
fn lapse_case<const C: char, const S: i128, const IS: bool, const E: i128, const IE: bool, const RS: char>(rng: &mut Rng, st: &mut Stats, name: &'static str) {
    type L = mpstthree::binary::struct_trait::send::Send<u8, End>;
    type Rr = mpstthree::binary::struct_trait::recv::Recv<u8, End>;
    let mut cl: Clocks = HashMap::from([('a', Instant::now()), ('b', Instant::now())]);
    if !cl.contains_key(&C) && rng.chance(1, 4) { cl.insert('q', Instant::now()); } else {
        // shortly before the end of the window, or somewhere inside or outside
        let el = if E > 0 && rng.chance(1, 2) { Duration::from_micros((E as u64 * 1_000_000).saturating_sub(rng.below(1500))) } else { Duration::from_millis(rng.below(5000)) };
        if let Some(t) = Instant::now().checked_sub(el) { cl.insert(C, t); }
    }
    // would a receive without a message come to an end?
    let ends = E >= 0 && cl.get(&C).is_none_or(|t| t.elapsed() + Duration::from_millis(4) > Duration::from_secs(E as u64));
    let kind = rng.below(if ends { 6 } else { 5 });
    let uid = rng.next();
    let desc = format!("{}, kind {kind}, {}", cfgname(C, S, IS, E, IE, RS), show(&cl));
    match kind {
        // send to a live or a gone peer
        0 | 1 => {
            let (s, r) = <SendTimed<Tok, C, S, IS, E, IE, RS, End> as Session>::new();
            let r = if kind == 1 { drop(r); None } else { Some(r) };
            let ok = matches!(guarded(|| send(Tok::make(uid), &mut cl, s).is_ok()), Ok(true));
            if let (false, Some(r)) = (ok, r) {
                if !matches!(r.channel.recv_timeout(Duration::from_millis(500)), Err(crossbeam_channel::RecvTimeoutError::Disconnected)) { st.violation(name, "held", &format!("a failed send leaves its end connected: {desc}"), "null".into()); }
            }
        }
        2 => {
            let (s, r) = <ChooseTimed<L, Rr, C, S, IS, E, IE, RS> as Session>::new();
            let left = rng.chance(1, 2);
            let ok = matches!(guarded(|| if left { choose_left::<L, Rr, C, S, IS, E, IE, RS>(&mut cl, s).is_ok() } else { choose_right::<L, Rr, C, S, IS, E, IE, RS>(&mut cl, s).is_ok() }), Ok(true));
            if !ok && !matches!(r.channel.recv_timeout(Duration::from_millis(500)), Err(crossbeam_channel::RecvTimeoutError::Disconnected)) { st.violation(name, "held", &format!("a failed selection leaves its end connected: {desc}"), "null".into()); }
        }
        // receive: message present, sender gone, or silence until the end of the window
        _ => {
            let (r, s) = <RecvTimed<Tok, C, S, IS, E, IE, RS, End> as Session>::new();
            let probe = s.channel.clone();
            let s = if kind == 4 { drop(s); None } else { Some(s) };
            if kind == 4 {
                // a receiver only sees the death of a sender when no other handle is left
                drop(probe);
                let _ = guarded(|| recv(&mut cl, r).map(|(v, _)| v.fp()).is_ok());
                st.add("lapses", 1);
                return;
            }
            if kind == 3 { let _ = s.as_ref().unwrap().channel.send((Tok::make(uid), End::new().0)); }
            let ok = matches!(guarded(|| recv(&mut cl, r).map(|(v, _)| v.fp()).is_ok()), Ok(true));
            if !ok && probe.try_send((Tok::make(uid ^ 1), End::new().0)).map_err(|e| e.is_full()) != Err(false) { st.violation(name, "held", &format!("a failed receive leaves its end connected: {desc}"), "null".into()); }
            drop(s);
        }
    }
    st.add("lapses", 1);
}
