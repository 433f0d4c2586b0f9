//! Construction and indexing.
use crate::cx::*;
use crate::el::*;
use crate::fp::Fp;
use crate::nd::*;
use crate::rng::Rng;
use crate::{any_type, ensure};
use rust_light::tensor::*;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    match r.below(10) {
        0..=5 => {
            let big = r.chance(1, 40) && !crate::rng::small();
            let s = if big {
                let mut s = vec![*r.pick(&[255usize, 256, 257, 1000, 32767, 65535, 65536, 65537, 70001, 131071, 131073, 262145])];
                if r.chance(1, 2) {
                    s.insert(r.clone().below(2), r.range(1, 3));
                }
                s
            } else {
                shape(&mut r, 8, 3000)
            };
            any_type!(r, flat(cx, &mut r.clone(), &s))
        }
        6 | 7 => any_type!(r, nested(cx, &mut r.clone())),
        8 => arrays(cx, &mut r),
        _ => any_type!(r, filler(cx, &mut r.clone())),
    }
}

/// Everything the property says about looking up elements of a tensor that holds `n`.
fn lookups<T: El, L: TensorLike<Elem = T>>(cx: &mut Cx, r: &mut Rng, what: &str, t: &L, n: &Nd<T>) -> Res {
    is(what, t, n)?;
    let s = &n.shape;
    let at = |i: &Vec<usize>| -> Res<Option<T>> { ok(&format!("{what}: get({i:?}) of shape {s:?}"), || t.get(i).ok().map(|v| *v)) };
    // enumeration
    let listed: Vec<Vec<usize>> = ok(&format!("{what}: iter_indices of {s:?}"), || t.iter_indices().take(n.data.len() + 1).collect())?;
    let want: Vec<Vec<usize>> = indices(s).collect();
    ensure!(listed == want, "{what}: iter_indices of shape {s:?} gives {:?}..", &listed[..listed.len().min(5)]);
    cx.add("indices enumerated", want.len() as u64);
    let probes = 12.min(n.data.len());
    for _ in 0..probes {
        let p = r.below(n.data.len());
        let i = unpos(s, p);
        // surplus leading entries, anything on an extent of one
        let mut j = i.clone();
        for (k, &d) in s.iter().enumerate() {
            if d == 1 && r.chance(1, 2) {
                j[k] = *r.pick(&[0usize, 1, 2, 7, 1000, usize::MAX]);
            }
        }
        for _ in 0..r.below(4) {
            j.insert(0, *r.pick(&[0usize, 1, 5, 1000, usize::MAX]));
        }
        let g = at(&j)?;
        ensure!(g == Some(n.data[p]), "{what}: get({j:?}) of shape {s:?} is {g:?}, expected {:?}", n.data[p]);
        cx.hit("broadcast lookups");
        // leading ones may be left out
        let ones = s.iter().take_while(|&&d| d == 1).count();
        if ones > 0 {
            let k = r.range(1, ones);
            let j = i[k..].to_vec();
            let g = at(&j)?;
            ensure!(g == Some(n.data[p]), "{what}: get({j:?}) of shape {s:?} is {g:?}, expected {:?}", n.data[p]);
            cx.hit("short lookups over ones");
        }
        // too short
        if ones < s.len() {
            let k = r.range(ones + 1, s.len());
            let j = i[k..].to_vec();
            let g = at(&j)?;
            ensure!(g.is_none(), "{what}: get({j:?}) of shape {s:?} returned {g:?} instead of an error");
            cx.hit("too short lookups refused");
        }
        // out of range on an extent above one
        let wide: Vec<usize> = (0..s.len()).filter(|&k| s[k] > 1).collect();
        if !wide.is_empty() {
            let k = *r.pick(&wide);
            let mut j = i.clone();
            j[k] = match r.below(8) {
                0 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32]),
                // would come out at the right place if positions wrapped around
                1 => (usize::MAX / count(&s[k + 1..])).wrapping_add(1).wrapping_add(j[k]).max(s[k]),
                _ => s[k] + *r.pick(&[0usize, 0, 1, 2, 100]),
            };
            if r.chance(1, 4) {
                j.insert(0, 0);
            }
            let g = at(&j)?;
            ensure!(g.is_none(), "{what}: get({j:?}) of shape {s:?} returned {g:?} instead of an error");
            cx.hit("out of range lookups refused");
        }
    }
    let e = ok(what, || *t.get_first_elem())?;
    ensure!(e == n.data[0], "{what}: first element is {e:?}");
    if s.is_empty() {
        let e = ok(what, || t.elem())?;
        ensure!(e == n.data[0], "{what}: elem() is {e:?}");
    }
    Ok(())
}
fn flat<T: El>(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let n: Nd<T> = Nd::new(s.to_vec(), (0..count(s)).map(T::label).collect());
    cx.describe(format!("flat {} {s:?}", T::NAME));
    cx.nontrivial = n.data.len() > 1;
    cx.max("elements", n.data.len() as u64);
    cx.max("rank", s.len() as u64);
    let what = format!("tensor of {} from flat data and shape {s:?}", T::NAME);
    let a = ok(&what, || raw(&n))?;
    lookups(cx, r, &what, &a, &n)?;
    let b = ok(&what, || rc(&n))?;
    lookups(cx, r, &format!("shared {what}"), &b, &n)?;
    ensure!(a.is_scalar() == s.is_empty() && b.is_scalar() == s.is_empty(), "{what}: is_scalar is wrong");
    let p = r.below(n.data.len());
    let i = unpos(s, p);
    let (x, y) = (ok(&what, || a[&i])?, ok(&what, || b[&i])?);
    ensure!(x == n.data[p] && y == n.data[p], "{what}: [{i:?}] is {x:?} / {y:?}");
    is(&format!("to_tensor of {what}"), &ok(&what, || a.to_tensor())?, &n)?;
    is(&format!("deep_clone of {what}"), &ok(&what, || a.deep_clone())?, &n)?;
    is(&format!("clone of {what}"), &ok(&what, || a.clone())?, &n)?;
    is(&format!("shared deep_clone of {what}"), &ok(&what, || b.deep_clone())?, &n)?;
    cx.hit("tensors from flat data");
    Ok(())
}
fn filler<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = if r.chance(1, 100) && !crate::rng::small() {
        // about a power of two
        let n = (1usize << r.range(12, 18)) + r.range(0, 2) - 1;
        if r.chance(1, 2) { vec![n] } else { vec![r.range(1, 2), n] }
    } else {
        shape(r, 6, 2000)
    };
    let v = T::gen(r, 2);
    cx.describe(format!("filler {} {s:?} {v:?}", T::NAME));
    let n = Nd::full(&s, v);
    cx.nontrivial = true;
    let what = format!("filler tensor of shape {s:?}");
    lookups(cx, r, &what, &ok(&what, || RawTensor::new_with_filler(s.clone(), v))?, &n)?;
    lookups(cx, r, &what, &ok(&what, || RcTensor::new_with_filler(s.clone(), v))?, &n)?;
    let one = Nd::new(vec![], vec![v]);
    lookups(cx, r, "scalar", &ok("scalar", || RawTensor::scalar(v))?, &one)?;
    lookups(cx, r, "shared scalar", &ok("scalar", || RcTensor::scalar(v))?, &one)?;
    lookups(cx, r, "scalar from", &ok("from", || RawTensor::from(v))?, &one)?;
    lookups(cx, r, "shared scalar from", &ok("from", || RcTensor::from(v))?, &one)?;
    cx.hit("tensors from a single value");
    Ok(())
}
fn dims(r: &mut Rng, rank: usize) -> Vec<usize> {
    let wide = if r.chance(1, 4) { Some(r.below(rank)) } else { None };
    let most = match (wide, rank) {
        (None, 1..=4) => 7,
        (Some(_), 1..=4) => 4,
        _ => 3,
    };
    loop {
        let mut s: Vec<usize> = (0..rank).map(|_| r.range(1, most)).collect();
        if let Some(k) = wide {
            // an entry count next to a power of two, at some level
            let room = (4000 / count(&s)).max(20);
            s[k] = ((1usize << r.range(3, 11)) + r.range(0, 2) - 1).min(room);
        }
        if count(&s) < if wide.is_some() { 6000 } else { 800 } {
            return s;
        }
    }
}
fn lists<U: Clone>(v: Vec<U>, w: usize) -> Vec<Vec<U>> {
    v.chunks(w).map(|c| c.to_vec()).collect()
}
fn nested<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let rank = r.range(1, 6);
    let s = dims(r, rank);
    cx.describe(format!("nested {} {s:?}", T::NAME));
    cx.nontrivial = count(&s) > 1;
    cx.max("levels of nested lists", rank as u64);
    cx.max("entries of a list", *s.iter().max().unwrap() as u64);
    let n: Nd<T> = Nd::new(s.clone(), (0..count(&s)).map(T::label).collect());
    let what = format!("tensor from nested lists of shape {s:?}");
    macro_rules! both {
        ($v:expr) => {{
            let v = $v;
            (ok(&what, || RawTensor::from(v.clone()))?, ok(&what, || RcTensor::from(v.clone()))?)
        }};
    }
    // innermost extent first
    let d = n.data.clone();
    let w = |k: usize| s[rank - k];
    let (a, b) = match rank {
        1 => both!(d),
        2 => both!(lists(d, w(1))),
        3 => both!(lists(lists(d, w(1)), w(2))),
        4 => both!(lists(lists(lists(d, w(1)), w(2)), w(3))),
        5 => both!(lists(lists(lists(lists(d, w(1)), w(2)), w(3)), w(4))),
        _ => both!(lists(lists(lists(lists(lists(d, w(1)), w(2)), w(3)), w(4)), w(5))),
    };
    lookups(cx, r, &what, &a, &n)?;
    lookups(cx, r, &format!("shared {what}"), &b, &n)?;
    cx.hit("tensors from nested lists");
    Ok(())
}
/// an array of `N` lists or arrays
fn array<U: Clone + std::fmt::Debug, const N: usize>(v: Vec<U>) -> [U; N] {
    v.try_into().expect("N entries")
}
fn arrays(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut v = [[[Fp(0); 3]; 2]; 4];
    for x in v.iter_mut().flatten().flatten() {
        *x = Fp::gen(r, 1);
    }
    let all: Vec<Fp> = v.iter().flatten().flatten().copied().collect();
    cx.digest(&all);
    cx.describe("nested arrays".into());
    let n3 = Nd::new(vec![4, 2, 3], all.clone());
    lookups(cx, r, "tensor from 4x2x3 array", &ok("from", || RawTensor::from(v))?, &n3)?;
    lookups(cx, r, "shared tensor from 4x2x3 array", &ok("from", || RcTensor::from(v))?, &n3)?;
    let n2 = Nd::new(vec![2, 3], all[6..12].to_vec());
    lookups(cx, r, "tensor from 2x3 array", &ok("from", || RawTensor::from(v[1]))?, &n2)?;
    lookups(cx, r, "shared tensor from 2x3 array", &ok("from", || RcTensor::from(v[1]))?, &n2)?;
    let n1 = Nd::new(vec![3], all[..3].to_vec());
    lookups(cx, r, "tensor from array", &ok("from", || RawTensor::from(v[0][0]))?, &n1)?;
    lookups(cx, r, "shared tensor from array", &ok("from", || RcTensor::from(v[0][0]))?, &n1)?;
    let col = [[all[0]], [all[1]], [all[2]]];
    lookups(cx, r, "tensor from column", &ok("from", || RcTensor::from(col))?, &Nd::new(vec![3, 1], all[..3].to_vec()))?;
    let mixed = vec![[all[0], all[1]], [all[2], all[3]]];
    lookups(cx, r, "tensor from list of arrays", &ok("from", || RcTensor::from(mixed))?, &Nd::new(vec![2, 2], all[..4].to_vec()))?;
    let wide: Vec<Fp> = (0..16 * 33).map(Fp::label).collect();
    let rows: [[Fp; 33]; 16] = array(wide.chunks(33).map(|c| array(c.to_vec())).collect());
    let n = Nd::new(vec![16, 33], wide.clone());
    lookups(cx, r, "tensor from 16x33 array", &ok("from", || RawTensor::from(rows))?, &n)?;
    let deep: [[[[Fp; 11]; 3]; 1]; 16] = array(rows.iter().map(|c| [array(c.chunks(11).map(|c| array(c.to_vec())).collect())]).collect());
    let n = Nd::new(vec![16, 1, 3, 11], wide.clone());
    lookups(cx, r, "shared tensor from 16x1x3x11 array", &ok("from", || RcTensor::from(deep))?, &n)?;
    let long: [Fp; 300] = array(wide[..300].to_vec());
    lookups(cx, r, "tensor from array of 300", &ok("from", || RcTensor::from(long))?, &Nd::new(vec![300], wide[..300].to_vec()))?;
    let lists: [Vec<Fp>; 16] = array(lists(wide.clone(), 33));
    lookups(cx, r, "tensor from array of lists", &ok("from", || RawTensor::from(lists))?, &Nd::new(vec![16, 33], wide))?;
    cx.hit("tensors from arrays");
    Ok(())
}
