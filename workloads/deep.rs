//! One endpoint runs far ahead of the other (argv: mode depth). Modes: `consume` - everything is then received;
//! `drop` - the receiver is dropped with everything unread; `panic` - the receiver's thread panics.
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary::{cancel::cancel, close::close, fork::fork_with_thread_id, recv::recv, send::send};
use mpstthree::choose;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::channel;
use vmon::*;

enum L { More(Recv<Tok, Recv<L, End>>), Stop(End) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, n) = (a[1].clone(), a[2].parse::<u64>().unwrap());
    static GOT: AtomicU64 = AtomicU64::new(0);
    let (tx, rx) = channel::<()>();
    let m = mode.clone();
    let (h, s): (_, Send<L, End>) = fork_with_thread_id(move |r: Recv<L, End>| {
        rx.recv()?;
        match m.as_str() {
            "drop" => { drop(r); Ok(()) }
            "panic" => { let _held = r; panic!("participant panics") }
            _ => {
                let mut r = r;
                let mut k = 0;
                loop {
                    let (l, e) = recv(r)?;
                    cancel(e);
                    match l {
                        L::More(c) => {
                            let (t, c) = recv(c)?;
                            if t.fp() != k { return Err("wrong value".into()); }
                            k += 1;
                            GOT.fetch_add(1, Ordering::SeqCst);
                            r = c;
                        }
                        L::Stop(s) => return close(s),
                    }
                }
            }
        }
    });
    let mut s = s;
    for k in 0..n {
        let c: Send<Tok, Send<L, End>> = choose!(L::More, s);
        s = send(Tok::make(k), c);
    }
    let made = TOK_MADE.load(Ordering::SeqCst);
    let ok = if mode == "consume" {
        let e: End = choose!(L::Stop, s);
        tx.send(()).unwrap();
        let c = close(e).is_ok();
        let j = h.join().is_ok();
        c && j && GOT.load(Ordering::SeqCst) == n
    } else {
        tx.send(()).unwrap();
        let j = h.join().is_ok();
        // the survivor notices
        let gone = !matches!(guarded(|| mpstthree::binary::send::send_canceled(L::Stop(<End as Session>::new().0), s).is_ok()), Ok(true));
        j == (mode == "drop") && gone
    };
    let (live, bad) = (TOK_LIVE.load(Ordering::SeqCst), TOK_BAD.load(Ordering::SeqCst));
    println!("DEEP ok={ok} made={made} live={live} bad={bad} n={n}");
    std::process::exit(if ok && made == n && live == 0 && bad == 0 { 0 } else { 7 });
}
