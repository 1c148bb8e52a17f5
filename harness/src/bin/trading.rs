//! T01: limit order book.  Every operation history up to a bound is run on the real book and on a
//! flat-list reference model; every return value and the complete final content of the book is compared.
use rqmc::*;
use RustQuant_trading::limit_order_book::Book;
use RustQuant_trading::order::Order as RqOrder;
use RustQuant_trading::order_book::OrderBook;
use RustQuant_trading::order_lifespan::OrderTimeInForce;
use RustQuant_trading::order_side::OrderSide;
use RustQuant_trading::order_type::OrderType;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Add { id: u64, buy: bool, sh: u64, px: u64 }, Cancel(u64), Mkt { buy: bool, sh: u64 } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Rest { id: u64, buy: bool, sh: u64, px: u64 }
/// Reference model: resting orders in arrival order.
#[derive(Clone, Default)]
struct Model { q: Vec<Rest> }
#[derive(Debug, PartialEq, Eq, Hash)]
enum Out { Add(bool), Cancel(bool), Mkt(bool, Vec<(u64, u64)>) }

impl Model {
    fn step(&mut self, op: Op) -> Out {
        match op {
            Op::Add { id, buy, sh, px } => {
                if self.q.iter().any(|r| r.id == id) { return Out::Add(false); }
                self.q.push(Rest { id, buy, sh, px });
                Out::Add(true)
            }
            Op::Cancel(id) => {
                let n = self.q.len();
                self.q.retain(|r| r.id != id);
                Out::Cancel(self.q.len() != n)
            }
            Op::Mkt { buy, sh } => {
                let mut left = sh;
                let mut fills: Vec<(u64, u64)> = vec![];
                while left > 0 {
                    // best opposite order: lowest ask / highest bid, earliest arrival
                    let mut best: Option<usize> = None;
                    for (i, r) in self.q.iter().enumerate() {
                        if r.buy == buy { continue; }
                        best = match best {
                            None => Some(i),
                            Some(b) if (buy && r.px < self.q[b].px) || (!buy && r.px > self.q[b].px) => Some(i),
                            b => b,
                        };
                    }
                    let Some(b) = best else { break };
                    let t = left.min(self.q[b].sh);
                    let px = self.q[b].px;
                    left -= t;
                    self.q[b].sh -= t;
                    if self.q[b].sh == 0 { self.q.remove(b); }
                    match fills.last_mut() { Some(l) if l.0 == px => l.1 += t, _ => fills.push((px, t)) }
                }
                Out::Mkt(left == 0, fills)
            }
        }
    }
    fn canon(&self) -> u64 {
        let mut v = self.q.clone();
        // arrival order matters only within one side and price
        v.sort_by_key(|r| (r.buy, r.px));
        h(&v)
    }
}
fn real_step(b: &mut Book, op: Op, ts: u64) -> Out {
    match op {
        Op::Add { id, buy, sh, px } => Out::Add(b.add_order(id, buy, sh, px, ts).is_ok()),
        Op::Cancel(id) => Out::Cancel(b.cancel_order(id).is_ok()),
        Op::Mkt { buy, sh } => { let (ok, f) = b.execute_market_order(sh, buy); Out::Mkt(ok, f) }
    }
}
fn ts(mode: u8, i: usize) -> u64 { match mode { 0 => i as u64, 1 => 7, _ => 1_000 - i as u64 } }

/// Runs one history on a fresh book; compares every answer, then the whole content with three probes.
fn run(w: &mut W, hist: &[Op], ids: &[u64], tmode: u8) -> Res {
    for probe in 0..3 {
        let mut b = Book::new();
        let mut m = Model::default();
        for (i, &op) in hist.iter().enumerate() {
            let want = m.step(op);
            let got = real_step(&mut b, op, ts(tmode, i));
            if probe == 0 { w.op(); w.state(m.canon()); w.outcome(h(&want)); }
            ensure!(got == want, "step {i} {op:?}: book answered {got:?}, model {want:?}");
        }
        let n = hist.len();
        let tail: Vec<Op> = match probe {
            // everything still resting trades, best first, and nothing else is left
            0 => {
                let vb: u64 = m.q.iter().filter(|r| r.buy).map(|r| r.sh).fold(0, u64::wrapping_add);
                let va: u64 = m.q.iter().filter(|r| !r.buy).map(|r| r.sh).fold(0, u64::wrapping_add);
                let mut t = vec![Op::Mkt { buy: true, sh: va }, Op::Mkt { buy: false, sh: vb },
                    Op::Mkt { buy: true, sh: 1 }, Op::Mkt { buy: false, sh: 1 }];
                t.extend(ids.iter().map(|&i| Op::Cancel(i)));
                t
            }
            // everything still resting can be cancelled once, and then the book is empty
            1 => ids.iter().map(|&i| Op::Cancel(i)).chain([Op::Mkt { buy: true, sh: 1 }, Op::Mkt { buy: false, sh: 1 }]).collect(),
            // one share at a time, re-adding every resting id must be refused
            _ => {
                let mut t: Vec<Op> = m.q.iter().map(|r| Op::Add { id: r.id, buy: !r.buy, sh: 1, px: r.px }).collect();
                t.extend([Op::Mkt { buy: true, sh: 1 }, Op::Mkt { buy: false, sh: 1 }, Op::Mkt { buy: true, sh: 2 }, Op::Mkt { buy: false, sh: 2 }]);
                t.extend(ids.iter().rev().map(|&i| Op::Cancel(i)));
                t
            }
        };
        for (j, op) in tail.into_iter().enumerate() {
            let want = m.step(op);
            let got = real_step(&mut b, op, ts(tmode, n + j));
            w.op();
            ensure!(got == want, "probe {probe} {op:?} after history: book answered {got:?}, model {want:?}");
        }
    }
    Ok(())
}
fn show(hs: &[Op]) -> String {
    hs.iter().map(|o| match o {
        Op::Add { id, buy, sh, px } => format!("add({id},{},{sh}@{px})", if *buy { "buy" } else { "sell" }),
        Op::Cancel(i) => format!("cancel({i})"),
        Op::Mkt { buy, sh } => format!("mkt-{}({sh})", if *buy { "buy" } else { "sell" }),
    }).collect::<Vec<_>>().join(" ")
}

struct Alpha { ids: Vec<u64>, px: Vec<u64>, sh: Vec<u64>, mkt: Vec<u64> }
/// Operations enabled in a model state.  A fresh id is always the first unused one (ids are opaque keys);
/// used ids (resting or gone) may all be reused.
fn enabled(a: &Alpha, used: usize) -> Vec<Op> {
    let mut v = vec![];
    for &buy in &[true, false] { for &sh in &a.mkt { v.push(Op::Mkt { buy, sh }); } }
    for &id in a.ids.iter().take(used) { v.push(Op::Cancel(id)); }
    for &id in a.ids.iter().take((used + 1).min(a.ids.len())) {
        for &buy in &[true, false] { for &px in &a.px { for &sh in &a.sh { v.push(Op::Add { id, buy, sh, px }); } } }
    }
    v
}
fn prefixes(a: &Alpha, depth: usize) -> Vec<Vec<Op>> {
    let mut out = vec![vec![]];
    let mut all = out.clone();
    for _ in 0..depth {
        let mut nx = vec![];
        for p in &out {
            let used = used_of(a, p);
            for o in enabled(a, used) { let mut q: Vec<Op> = p.clone(); q.push(o); nx.push(q); }
        }
        all.extend(nx.iter().cloned());
        out = nx;
    }
    all
}
fn used_of(a: &Alpha, p: &[Op]) -> usize {
    p.iter().filter_map(|o| if let Op::Add { id, .. } = o { a.ids.iter().position(|x| x == id).map(|i| i + 1) } else { None }).max().unwrap_or(0)
}
fn dfs(w: &mut W, sec: &'static str, a: &Alpha, hist: &mut Vec<Op>, used: usize, left: usize, tmode: u8) {
    // only complete histories are executed; every prefix is checked on the way
    if left == 0 {
        let hs = hist.clone();
        w.case(sec, || show(&hs), |w| run(w, &hs, &a.ids, tmode));
        return;
    }
    for o in enabled(a, used) {
        let u = match o { Op::Add { id, .. } => used.max(a.ids.iter().position(|x| *x == id).unwrap() + 1), _ => used };
        hist.push(o);
        dfs(w, sec, a, hist, u, left - 1, tmode);
        hist.pop();
    }
}
fn explore(ck: &Ck, sec: &'static str, a: &Alpha, depth: usize, tmode: u8) {
    let roots: Vec<Vec<Op>> = prefixes(a, 2).into_iter().filter(|p| p.len() == 2.min(depth)).collect();
    ck.par(roots.len(), |w, i| {
        let mut hs = roots[i].clone();
        let used = used_of(a, &hs);
        let left = depth - hs.len();
        dfs(w, sec, a, &mut hs, used, left, tmode);
    });
}

/// Deep one-sided queues: every k-order queue over prices x sizes, then an optional cancel, then every pair
/// of market orders with a cancel or re-add between them.
fn queues(ck: &Ck, kmax: usize, px: &[u64], sh: &[u64]) {
    for buy in [true, false] {
        for k in 1..=kmax {
            let c = px.len() * sh.len();
            let total = c.pow(k as u32);
            ck.par(total, |w, mut code| {
                let mut adds = vec![];
                for i in 0..k { let x = code % c; code /= c; adds.push(Op::Add { id: 50 - 7 * i as u64, buy, sh: sh[x / px.len()], px: px[x % px.len()] }); }
                let ids: Vec<u64> = (0..k).map(|i| 50 - 7 * i as u64).collect();
                let vol: u64 = adds.iter().map(|o| if let Op::Add { sh, .. } = o { *sh } else { 0 }).sum();
                for cancel in 0..=k {
                    for m1 in 1..=vol + 1 {
                        for mid in 0..=k + 1 {
                            let mut hs = adds.clone();
                            if cancel > 0 { hs.push(Op::Cancel(ids[cancel - 1])); }
                            hs.push(Op::Mkt { buy: !buy, sh: m1 });
                            if mid > 0 && mid <= k { hs.push(Op::Cancel(ids[mid - 1])); }
                            if mid == k + 1 { hs.push(Op::Add { id: ids[0], buy, sh: 2, px: px[0] }); }
                            hs.push(Op::Mkt { buy: !buy, sh: 2 });
                            w.case("queue-drain", || show(&hs), |w| run(w, &hs, &ids, 0));
                        }
                    }
                }
            });
        }
    }
}

/// Books of many orders: every size x ladder of prices x pattern of sides x pattern of cancellations x market
/// order, with the cancelled ids put back afterwards.
fn large(ck: &Ck, sizes: &[usize]) {
    let mut cfg = vec![];
    for &n in sizes { for levels in [1usize, 2, 7, n] { for dir in 0..3u8 { for sides in 0..3u8 { cfg.push((n, levels, dir, sides)); } } } }
    ck.par(cfg.len(), |w, i| {
        let (n, levels, dir, sides) = cfg[i];
        let ids: Vec<u64> = (0..n as u64).map(|k| (k * 7919 + 13) % 10_007).collect();
        let adds: Vec<Op> = (0..n).map(|k| {
            let l = match dir { 0 => k % levels, 1 => levels - 1 - k % levels, _ => (k * 5 + 3) % levels };
            let buy = match sides { 0 => true, 1 => false, _ => k % 2 == 0 };
            Op::Add { id: ids[k], buy, sh: 1 + (k % 3) as u64, px: 500 + l as u64 }
        }).collect();
        // which orders are cancelled, and in which order
        for cancel in 0..8u8 {
            let mut c: Vec<usize> = match cancel { 0 => vec![], 1 => (0..n).step_by(2).collect(), 2 => (0..n).step_by(3).rev().collect(), 3 => (0..n).collect(),
                4 => (0..n).rev().collect(), 5 => vec![n / 2], 6 => vec![0, n - 1], _ => (n / 2..n).collect() };
            c.dedup();
            for m in 0..4u8 { for back in [false, true] {
                w.case("large-books", || format!("{n} orders, {levels} prices (pattern {dir}), sides {sides}, cancellations {cancel}, market order {m}, cancelled ids put back {back}"), |w| {
                    let mut hs = adds.clone();
                    hs.extend(c.iter().map(|&k| Op::Cancel(ids[k])));
                    let live: u64 = (0..n).filter(|k| !c.contains(k)).map(|k| 1 + (k % 3) as u64).sum();
                    let sh = match m { 0 => 1, 1 => live / 3, 2 => live.saturating_sub(1), _ => live + 1 };
                    hs.push(Op::Mkt { buy: sides != 0, sh });
                    if back { hs.extend(c.iter().rev().map(|&k| adds[k])); hs.push(Op::Mkt { buy: sides == 1, sh: 4 }); }
                    run(w, &hs, &ids, 0)
                });
            } }
        }
    });
    // one id added and removed over and over (by cancelling or by trading), next to resting orders
    ck.par(60, |w, r| for k in 0..3usize { for how in 0..3u8 {
        w.case("recycled-orders", || format!("{r} rounds next to {k} orders, removal {how}"), |w| {
            let mut hs: Vec<Op> = (0..k).map(|j| Op::Add { id: 100 + j as u64, buy: false, sh: 2, px: 11 }).collect();
            for j in 0..r {
                hs.push(Op::Add { id: 5, buy: false, sh: 3, px: 9 + (j % 3) as u64 });
                hs.push(match how { 0 => Op::Cancel(5), 1 => Op::Mkt { buy: true, sh: 3 }, _ if j % 2 == 0 => Op::Cancel(5), _ => Op::Mkt { buy: true, sh: 4 } });
            }
            run(w, &hs, &[5, 100, 101, 102], 0)
        });
    } });
}

fn simple_book(ck: &Ck) {
    ck.seq(|w| {
        for n in 0..=7usize {
            words(2, n, &mut |wd| {
                let wd = wd.to_vec();
                w.case("container", || format!("{wd:?}"), |w| {
                    let mut b = OrderBook::new();
                    let (mut mb, mut ma) = (vec![], vec![]);
                    for (i, &s) in wd.iter().enumerate() {
                        let side = if s == 0 { OrderSide::BID } else { OrderSide::ASK };
                        b.insert_order(RqOrder {
                            id: i as u64, symbol_id: 1, order_type: OrderType::Limit, order_side: side, price: 1.0 + i as f64, stop_price: 0.0,
                            quantity: 3, executed_quantity: 0, leaves_quantity: 3, time_in_force: OrderTimeInForce::GoodTillCancelled,
                            timestamp: time::OffsetDateTime::UNIX_EPOCH,
                        });
                        if s == 0 { mb.push(i as u64) } else { ma.push(i as u64) }
                        w.op(); w.state(h(&(&mb, &ma)));
                        ensure!(b.len() == i + 1 && !b.is_empty(), "len {} after {} inserts", b.len(), i + 1);
                        ensure!(b.bids.iter().map(|o| o.id).collect::<Vec<_>>() == mb && b.asks.iter().map(|o| o.id).collect::<Vec<_>>() == ma, "side queues differ from arrival order");
                        ensure!(!!side == side && !side != side, "side negation");
                    }
                    ensure!(b.is_empty() == wd.is_empty() && b.len() == wd.len(), "emptiness");
                    Ok(())
                });
            });
        }
        // orders of every type, side and lifetime come out of the book as they went in
        use OrderTimeInForce::*;
        let types = [OrderType::Market, OrderType::Limit, OrderType::Stop, OrderType::StopLimit, OrderType::TrailingStop, OrderType::TrailingStopLimit];
        for ty in types { for side in [OrderSide::BID, OrderSide::ASK] { for tif in [GoodTillCancelled, ImmediateOrCancel, FillOrKill, AllOrNone] {
            w.case("order-fields", || format!("{ty:?} {side:?} {tif:?}"), |w| {
                w.op();
                let t = time::OffsetDateTime::UNIX_EPOCH + time::Duration::seconds(12_345);
                let o = RqOrder { id: 17, symbol_id: 23, order_type: ty, order_side: side, price: 1.5, stop_price: 2.25, quantity: 31, executed_quantity: 11, leaves_quantity: 20, time_in_force: tif, timestamp: t };
                let mut b = OrderBook::new();
                b.insert_order(o);
                let (on, off) = if side == OrderSide::BID { (&b.bids, &b.asks) } else { (&b.asks, &b.bids) };
                ensure!(on.len() == 1 && off.is_empty(), "stored on the wrong side");
                let q = on[0];
                ensure!(format!("{q:?}") == format!("{o:?}"), "{q:?} was stored for {o:?}");
                ensure!(q.id() == 17 && q.symbol_id() == 23 && q.price() == 1.5 && q.stop_price() == 2.25, "identity and prices");
                ensure!(q.quantity() == 31 && q.executed_quantity() == 11 && q.leaves_quantity() == 20 && q.timestamp() == t, "quantities and time");
                ensure!(format!("{:?} {:?} {:?}", q.order_type(), q.order_side(), q.time_in_force()) == format!("{ty:?} {side:?} {tif:?}"), "type, side and lifetime");
                w.state(h(&format!("{o:?}")));
                Ok(())
            });
        } } }
    });
}

fn main() {
    Ck::main(|ck| {
        ck.assume("orders have a positive number of shares");
        let base = Alpha { ids: vec![11, 4, 7], px: vec![10, 11], sh: vec![1, 2], mkt: vec![0, 1, 2, 3, 5] };
        for d in 1..=ck.pick(4, 5) { explore(ck, "histories", &base, d, 0); }
        // thinner alphabet, longer histories
        let thin = Alpha { ids: vec![1, 2, 3], px: vec![10, 11], sh: vec![2], mkt: vec![1, 3] };
        explore(ck, "long-histories", &thin, ck.pick(6, 7), 2);
        let single = Alpha { ids: vec![5, 3, 9, 1], px: vec![10], sh: vec![2], mkt: vec![1, 3] };
        explore(ck, "long-histories-one-price", &single, ck.pick(7, 8), 1);
        let wide = Alpha { ids: vec![0, u64::MAX], px: vec![0, 1, u64::MAX, 1 << 40], sh: vec![1, (1 << 53) + 1], mkt: vec![1, 1 << 53, u64::MAX] };
        explore(ck, "extreme-values", &wide, ck.pick(3, 4), 0);
        queues(ck, ck.pick(4, 5), &[100, 101, 99], &[1, 2]);
        queues(ck, 3, &[7, 5, 6], &[1, 3, 4]);
        // the ends of the price range
        queues(ck, ck.pick(3, 4), &[0, 1, 2], &[1, 2]);
        queues(ck, ck.pick(3, 4), &[u64::MAX, u64::MAX - 2, u64::MAX - 1], &[1, 2]);
        queues(ck, 3, &[0, u64::MAX, 1], &[1, 2]);
        large(ck, &ck.pick(vec![1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129], vec![1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000]));
        simple_book(ck);
    })
}
