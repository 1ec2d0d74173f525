//! Compressed-sparse-graph routines.
use crate::*;
use sparsetools::graph::*;

/// Edges of a named base graph on `n` nodes.
fn base_edges(n: usize, base: usize) -> Vec<(usize, usize)> {
    let mut e = vec![];
    let mut g = Lcg((n * 131 + base) as u64);
    for i in 0..n {
        match base {
            0 if i + 1 < n => e.push((i, i + 1)),
            1 if i + 1 < n => e.push((i + 1, i)),
            2 => e.push((i, (i + 1) % n)),
            3 if i > 0 => e.push((0, i)),
            4 if i + 1 < n => e.push((i, n - 1)),
            5 => e.push((i, (i + 2) % n)),
            6 => {
                e.push((g.next(n), g.next(n)));
            }
            7 => {
                for c in [2 * i + 2, 2 * i + 1] {
                    if c < n {
                        e.push((i, c))
                    }
                }
            }
            8 => {
                for c in [2 * i + 1, 2 * i + 2] {
                    if c < n {
                        e.push((c, i))
                    }
                }
            }
            9 => {
                for _ in 0..2 {
                    e.push((g.next(n), g.next(n)));
                }
            }
            10 if i + 1 < n => {
                // 0, n-1, 1, n-2, ...
                let at = |k: usize| if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 };
                e.push((at(i), at(i + 1)));
            }
            11 if i + 1 < n => {
                let at = |k: usize| if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 };
                e.push((at(i + 1), at(i)));
            }
            // two paths and a lone node
            12 if i + 1 < n && i != n / 2 && i != n / 2 + 1 => e.push((i, i + 1)),
            // descending chords over a path: nodes are met early and searched late
            13 => {
                for c in (i + 1..n.min(i + 4)).rev() {
                    e.push((i, c))
                }
            }
            // no edges
            _ => {}
        }
    }
    e
}
pub const BASES: usize = 14;
/// A base graph (in general with both directions of every edge when `sym`) plus `spare`
/// extra edges from fixed nodes to arbitrary nodes.
fn gen_graph<D: Dom>(n: usize, base: usize, spare: usize, sym: bool) -> Comp<D> {
    let mut e = base_edges(n, base);
    if sym {
        for (a, b) in e.clone() {
            e.push((b, a));
        }
    }
    let mut g = Lcg((n * 7 + base * 3 + spare) as u64);
    let from: Vec<usize> = (0..spare).map(|_| g.next(n)).collect();
    let to: Vec<usize> = (0..spare).map(|_| g.next(n)).collect();
    let target = |k: usize| if n < 200 { D::idx(0, n as i64 - 1) } else { near::<D>(to[k], n) };
    let (mut ptr, mut ind) = (vec![D::ci(0)], vec![]);
    for r in 0..n {
        for (k, f) in from.iter().enumerate() {
            if *f == r && k % 2 == 0 {
                ind.push(target(k));
            }
        }
        for (_, c) in e.iter().filter(|x| x.0 == r) {
            ind.push(D::ci(*c as i64));
        }
        for (k, f) in from.iter().enumerate() {
            if *f == r && k % 2 == 1 {
                ind.push(target(k));
            }
        }
        ptr.push(D::ci(ind.len() as i64));
    }
    let val = vec![D::cv(1); ind.len()];
    Comp { major: n, minor: n, ptr, ind, val }
}
/// kinds from 10 on are base graphs with `m` symbolic edges, below them the generic inputs
fn graph<D: Dom>(n: usize, m: usize, k: i64, sym: bool) -> Comp<D> {
    if k >= 10 {
        gen_graph::<D>(n, k as usize - 10, m, sym)
    } else {
        gen_comp::<D>(n, n, m, kind(k))
    }
}
fn closure<D: Dom>(n: usize, mut e: M<D::B>) -> M<D::B> {
    for i in 0..n {
        e[i][i] = D::tt(true);
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                e[i][j] = D::or2(e[i][j], D::and2(e[i][k], e[k][j]));
            }
        }
    }
    e
}
fn sym<D: Dom>(n: usize, e: &M<D::B>) -> M<D::B> {
    (0..n).map(|i| (0..n).map(|j| D::or2(e[i][j], e[j][i])).collect()).collect()
}
fn partition<D: Dom>(n: usize, nc: usize, labels: &[usize], same: &M<D::B>, l: &'static str) {
    D::claim(labels.len() == n, "one label per node");
    if labels.len() != n {
        return;
    }
    let mut seen = vec![false; nc];
    let mut ok = true;
    for &x in labels {
        if x < nc {
            seen[x] = true
        } else {
            ok = false
        }
    }
    D::claim(ok && seen.iter().all(|x| *x), "labels are exactly 0..number of components");
    D::prove(
        all::<D>((0..n).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| D::iff(D::tt(labels[i] == labels[j]), same[i][j]))),
        l,
    );
}
/// [n, nnz, kind, which(0 weak/directed flag free, 1 undirected+Strong)]
pub fn weak<D: Dom>(p: &[i64]) {
    let n = p[0] as usize;
    let c = graph::<D>(n, p[1] as usize, p[2], false);
    let a = c.csr();
    let (dir, con) = match p[3] {
        0 => (true, Connection::Weak),
        1 => (false, Connection::Weak),
        _ => (false, Connection::Strong),
    };
    let (nc, labels) = connected_components(&a, dir, con).unwrap();
    let r = closure::<D>(n, sym::<D>(n, &c.pat()));
    partition::<D>(n, nc, &labels, &r, "nodes share a label exactly when connected ignoring direction");
    unchanged_csr::<D>(&a, &c, "the graph is left alone");
}
pub fn strong<D: Dom>(p: &[i64]) {
    let n = p[0] as usize;
    let c = graph::<D>(n, p[1] as usize, p[2], false);
    let a = c.csr();
    let (nc, labels) = connected_components(&a, true, Connection::Strong).unwrap();
    let r = closure::<D>(n, c.pat());
    let both: M<D::B> = (0..n).map(|i| (0..n).map(|j| D::and2(r[i][j], r[j][i])).collect()).collect();
    partition::<D>(n, nc, &labels, &both, "nodes share a label exactly when each reaches the other");
    unchanged_csr::<D>(&a, &c, "the graph is left alone");
}
/// [n, nnz, kind, directed]
pub fn dfs<D: Dom>(p: &[i64]) {
    let n = p[0] as usize;
    let start = D::size(0, n - 1);
    let c = graph::<D>(n, p[1] as usize, p[2], false);
    let a = c.csr();
    let directed = p[3] == 1;
    let (order, pred) = depth_first_order(&a, start, directed).unwrap();
    let e = if directed { c.pat() } else { sym::<D>(n, &c.pat()) };
    D::claim(pred.len() == n, "one predecessor slot per node");
    D::claim(!order.is_empty() && order[0] == start, "the order starts at the start node");
    let mut at = vec![usize::MAX; n];
    let mut ok = true;
    for (t, &v) in order.iter().enumerate() {
        if v >= n || at[v] != usize::MAX {
            ok = false;
        } else {
            at[v] = t;
        }
    }
    D::claim(ok, "no node is listed twice");
    if !ok || pred.len() != n || order.is_empty() {
        return;
    }
    let reach = closure::<D>(n, e.clone());
    D::prove(
        all::<D>((0..n).map(|v| D::iff(D::tt(at[v] != usize::MAX), reach[start][v]))),
        "exactly the reachable nodes are listed",
    );
    for v in 0..n {
        let tree = at[v] != usize::MAX && v != start;
        match pred[v] {
            None => D::claim(!tree, "every listed node but the start has a predecessor"),
            Some(q) => {
                D::claim(tree, "only listed nodes other than the start have a predecessor");
                let good = q < n && at[q] != usize::MAX && (!tree || at[q] < at[v]);
                D::claim(good, "a predecessor is listed before its node");
                if good {
                    D::prove(e[q][v], "a predecessor has an edge to its node");
                }
            }
        }
    }
    // depth first: between listing u and listing v under an ancestor q of u, every
    // node on the path from u up to q (q excluded) has no unlisted neighbour left
    for t in 1..order.len() {
        let v = order[t];
        let Some(q) = pred[v] else { continue };
        let mut w = order[t - 1];
        let mut steps = 0;
        while w != q {
            for x in 0..n {
                if at[x] >= t {
                    D::prove(D::not(e[w][x]), "the order is depth first");
                }
            }
            steps += 1;
            match pred[w] {
                Some(up) if steps <= n => w = up,
                _ => {
                    D::claim(false, "the predecessor lies on the current depth-first path");
                    break;
                }
            }
        }
    }
    unchanged_csr::<D>(&a, &c, "the graph is left alone");
}
/// [n, nnz, kind]: components of a symmetric graph; nodes without entries are marked
pub fn cs_components<D: Dom>(p: &[i64]) {
    let n = p[0] as usize;
    let c = graph::<D>(n, p[1] as usize, p[2], true);
    let e = c.pat();
    for i in 0..n {
        for j in 0..i {
            D::assume(D::iff(e[i][j], e[j][i]));
        }
    }
    let a = c.csr();
    let (nc, flag) = match a.connected_components::<i64>() {
        Ok(x) => x,
        Err(_) => return D::claim(false, "a symmetric graph has components"),
    };
    D::claim(flag.len() == n, "one flag per node");
    let r = closure::<D>(n, e.clone());
    let lone: Vec<D::B> = (0..n).map(|i| D::not(any::<D>(e[i].iter().copied()))).collect();
    let mut distinct: Vec<i64> = flag.iter().copied().filter(|x| *x >= 0).collect();
    distinct.sort();
    distinct.dedup();
    D::claim(distinct.iter().enumerate().all(|(k, x)| k as i64 == *x), "components are numbered from 0 without gaps");
    D::prove(D::ieq(nc, D::ci(distinct.len() as i64)), "the count is the number of components with entries");
    for i in 0..n {
        D::prove(D::iff(D::tt(flag[i] < 0), lone[i]), "exactly nodes without entries are flagged negative");
        for j in 0..n {
            if flag[i] >= 0 && flag[j] >= 0 {
                D::prove(D::iff(D::tt(flag[i] == flag[j]), r[i][j]), "nodes share a flag exactly when connected");
            }
        }
    }
}
/// [maxdim]: every graph routine refuses non-square matrices
pub fn square<D: Dom>(p: &[i64]) {
    let m = p[0] as usize;
    let (r, c) = (D::size(0, m), D::size(0, m));
    let a = gen_comp::<D>(r, c, p[1] as usize, Kind::General).csr();
    D::claim(connected_components(&a, true, Connection::Weak).is_ok() == (r == c), "weak components accept exactly square matrices");
    D::claim(connected_components(&a, true, Connection::Strong).is_ok() == (r == c), "strong components accept exactly square matrices");
    if r != c {
        D::claim(a.connected_components::<i64>().is_err(), "CSR::connected_components refuses non-square matrices");
        D::claim(depth_first_order(&a, 0, true).is_err(), "depth_first_order refuses non-square matrices");
        D::claim(depth_first_order(&a, 0, false).is_err(), "depth_first_order refuses non-square matrices");
    }
}

/// Representative of each node's component, ignoring direction.
fn merged(n: usize, e: &[(usize, usize)]) -> Vec<usize> {
    let mut up: Vec<usize> = (0..n).collect();
    fn top(up: &mut [usize], mut x: usize) -> usize {
        while up[x] != x {
            up[x] = up[up[x]];
            x = up[x];
        }
        x
    }
    for (a, b) in e {
        let (a, b) = (top(&mut up, *a), top(&mut up, *b));
        up[a] = b;
    }
    (0..n).map(|x| top(&mut up, x)).collect()
}
/// Representative of each node's strong component: finishing order, then the reverse graph.
fn strongly(n: usize, e: &[(usize, usize)]) -> Vec<usize> {
    let (mut to, mut of) = (vec![vec![]; n], vec![vec![]; n]);
    for (a, b) in e {
        to[*a].push(*b);
        of[*b].push(*a);
    }
    let (mut seen, mut done) = (vec![false; n], vec![]);
    for s in 0..n {
        if seen[s] {
            continue;
        }
        seen[s] = true;
        let mut path = vec![(s, 0)];
        while let Some((v, k)) = path.pop() {
            match to[v].get(k) {
                Some(&w) => {
                    path.push((v, k + 1));
                    if !seen[w] {
                        seen[w] = true;
                        path.push((w, 0));
                    }
                }
                None => done.push(v),
            }
        }
    }
    let mut rep = vec![usize::MAX; n];
    for &s in done.iter().rev() {
        if rep[s] == usize::MAX {
            rep[s] = s;
            let mut left = vec![s];
            while let Some(v) = left.pop() {
                for &w in &of[v] {
                    if rep[w] == usize::MAX {
                        rep[w] = s;
                        left.push(w);
                    }
                }
            }
        }
    }
    rep
}
/// Labels below `nc`, each used, equal exactly where the representatives are.
fn labelled(nc: usize, labels: &[usize], rep: &[usize]) -> bool {
    let mut label_of = vec![usize::MAX; rep.len()];
    let mut owner = vec![usize::MAX; nc];
    labels.len() == rep.len()
        && labels.iter().zip(rep).all(|(l, r)| {
            if *l >= nc {
                return false;
            }
            if label_of[*r] == usize::MAX && owner[*l] == usize::MAX {
                label_of[*r] = *l;
                owner[*l] = *r;
            }
            label_of[*r] == *l && owner[*l] == *r
        })
        && owner.iter().all(|x| *x != usize::MAX)
}
/// [n, base, which]: very large base graphs with two more edges, each to one of a few nodes, on
/// a thread with a stack of the usual size. Reference: the textbook algorithms above.
pub fn deep<D: Dom>(p: &[i64]) {
    let n = p[0] as usize;
    let mut e = base_edges(n, p[1] as usize);
    for from in [n - 2, n / 3] {
        e.push((from, [0, from, n / 2, n - 1][D::pick(4)]));
    }
    if p[2] == 5 {
        for (a, b) in e.clone() {
            e.push((b, a));
        }
    }
    let mut at: Vec<usize> = vec![0; n + 1];
    for (a, _) in &e {
        at[*a + 1] += 1;
    }
    for i in 0..n {
        at[i + 1] += at[i];
    }
    let (mut next, mut ind) = (at.clone(), vec![0; e.len()]);
    for (a, b) in &e {
        ind[next[*a]] = *b;
        next[*a] += 1;
    }
    let c = Comp::<D> {
        major: n,
        minor: n,
        ptr: at.iter().map(|x| D::ci(*x as i64)).collect(),
        ind: ind.iter().map(|x| D::ci(*x as i64)).collect(),
        val: vec![D::cv(1); ind.len()],
    };
    let a = c.csr();
    match p[2] {
        0 | 1 => {
            let (dir, con) = if p[2] == 0 { (true, Connection::Weak) } else { (false, Connection::Strong) };
            let (nc, labels) = connected_components(&a, dir, con).unwrap();
            D::claim(labelled(nc, &labels, &merged(n, &e)), "nodes share a label exactly when connected ignoring direction");
        }
        2 => {
            let (nc, labels) = connected_components(&a, true, Connection::Strong).unwrap();
            D::claim(labelled(nc, &labels, &strongly(n, &e)), "nodes share a label exactly when each reaches the other");
        }
        3 | 4 => {
            let start = [0, n / 2, n - 1][D::pick(3)];
            let (order, pred) = depth_first_order(&a, start, p[2] == 3).unwrap();
            let mut to = vec![vec![]; n];
            for (x, y) in &e {
                to[*x].push(*y);
                if p[2] == 4 {
                    to[*y].push(*x);
                }
            }
            to.iter_mut().for_each(|x| x.sort());
            let mut reach = vec![false; n];
            let mut left = vec![start];
            reach[start] = true;
            while let Some(v) = left.pop() {
                for &w in &to[v] {
                    if !reach[w] {
                        reach[w] = true;
                        left.push(w);
                    }
                }
            }
            let mut when = vec![usize::MAX; n];
            let mut ok = pred.len() == n && order.first() == Some(&start);
            for (t, &v) in order.iter().enumerate() {
                ok = ok && v < n && when[v] == usize::MAX;
                if v < n {
                    when[v] = t;
                }
            }
            D::claim(ok, "the order starts at the start node and lists no node twice");
            D::claim((0..n).all(|v| reach[v] == (when[v] != usize::MAX)), "exactly the reachable nodes are listed");
            if !ok {
                return;
            }
            D::claim(
                (0..n).all(|v| match pred[v] {
                    None => !reach[v] || v == start,
                    Some(q) => reach[v] && v != start && q < n && reach[q] && when[q] < when[v] && to[q].binary_search(&v).is_ok(),
                }),
                "a predecessor is listed before its node and has an edge to it",
            );
            let mut left = 0;
            for t in 1..order.len() {
                let Some(q) = pred[order[t]] else { continue };
                let mut w = order[t - 1];
                while w != q && left <= n {
                    left += 1;
                    D::claim(to[w].iter().all(|x| when[*x] < t), "the order is depth first");
                    match pred[w] {
                        Some(up) => w = up,
                        None => return D::claim(false, "the predecessor lies on the current depth-first path"),
                    }
                }
            }
            D::claim(left <= n, "the predecessor lies on the current depth-first path");
        }
        _ => {
            let (nc, flag) = match a.connected_components::<i64>() {
                Ok(x) => x,
                Err(_) => return D::claim(false, "a symmetric graph has components"),
            };
            let touched: Vec<usize> = (0..n).filter(|v| at[*v] < at[*v + 1]).collect();
            D::claim(flag.len() == n && (0..n).all(|v| (flag[v] < 0) == (at[v] == at[v + 1])), "exactly nodes without entries are flagged negative");
            if flag.len() != n {
                return;
            }
            let rep = merged(n, &e);
            let first: Vec<usize> = touched.iter().map(|v| rep[*v]).collect();
            // numbered among the touched nodes
            let mut number = vec![usize::MAX; n];
            let mut k = 0;
            for r in &first {
                if number[*r] == usize::MAX {
                    number[*r] = k;
                    k += 1;
                }
            }
            let rep: Vec<usize> = first.iter().map(|r| number[*r]).collect();
            let labels: Vec<usize> = touched.iter().map(|v| flag[*v].max(0) as usize).collect();
            D::claim(labelled(k, &labels, &rep), "nodes share a flag exactly when connected");
            D::prove(D::ieq(nc, D::ci(k as i64)), "the count is the number of components with entries");
        }
    }
    unchanged_csr::<D>(&a, &c, "the graph is left alone");
}
