//! The reference model: plain row-major arrays, written independently of the library.
#[derive(Clone, PartialEq, Debug)]
pub struct Nd<T> {
    pub shape: Vec<usize>,
    pub data: Vec<T>,
}
pub fn count(shape: &[usize]) -> usize {
    let mut n = 1;
    for &d in shape {
        n *= d;
    }
    n
}
/// row-major position of an in-range index of the same length as the shape
pub fn pos(shape: &[usize], idx: &[usize]) -> usize {
    assert_eq!(shape.len(), idx.len());
    let mut p = 0;
    for i in 0..shape.len() {
        assert!(idx[i] < shape[i]);
        p = p * shape[i] + idx[i];
    }
    p
}
/// index of a row-major position
pub fn unpos(shape: &[usize], mut p: usize) -> Vec<usize> {
    let mut idx = vec![0; shape.len()];
    for i in (0..shape.len()).rev() {
        idx[i] = p % shape[i];
        p /= shape[i];
    }
    idx
}
pub fn indices(shape: &[usize]) -> impl Iterator<Item = Vec<usize>> + '_ {
    (0..count(shape)).map(move |p| unpos(shape, p))
}
pub fn broadcast_shape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let dim = |s: &[usize], i: usize| if i + s.len() >= n { s[i + s.len() - n] } else { 1 };
    let mut out = Vec::new();
    for i in 0..n {
        let (x, y) = (dim(a, i), dim(b, i));
        out.push(if x == y || y == 1 {
            x
        } else if x == 1 {
            y
        } else {
            return None;
        });
    }
    Some(out)
}
impl<T: Copy> Nd<T> {
    pub fn new(shape: Vec<usize>, data: Vec<T>) -> Nd<T> {
        assert_eq!(count(&shape), data.len());
        Nd { shape, data }
    }
    pub fn full(shape: &[usize], v: T) -> Nd<T> {
        Nd { shape: shape.to_vec(), data: vec![v; count(shape)] }
    }
    pub fn at(&self, idx: &[usize]) -> T {
        self.data[pos(&self.shape, idx)]
    }
    /// The position that a (longer or equal) broadcast index pairs with.
    pub fn bpos(&self, idx: &[usize]) -> usize {
        let off = idx.len() - self.shape.len();
        let mut p = 0;
        for (i, &d) in self.shape.iter().enumerate() {
            p = p * d + if d == 1 { 0 } else { idx[off + i] };
        }
        p
    }
    pub fn map<U: Copy>(&self, f: impl Fn(T) -> U) -> Nd<U> {
        Nd { shape: self.shape.clone(), data: self.data.iter().map(|&x| f(x)).collect() }
    }
    pub fn zip(&self, o: &Nd<T>, f: impl Fn(T, T) -> T) -> Nd<T> {
        let shape = broadcast_shape(&self.shape, &o.shape).expect("broadcastable");
        let data = indices(&shape).map(|i| f(self.data[self.bpos(&i)], o.data[o.bpos(&i)])).collect();
        Nd { shape, data }
    }
    /// rank 2 or 3 times rank 2
    pub fn matmul(&self, o: &Nd<T>, zero: T, mul: impl Fn(T, T) -> T, add: impl Fn(T, T) -> T) -> Nd<T> {
        let r = self.shape.len();
        assert!((r == 2 || r == 3) && o.shape.len() == 2);
        let (b, m, k) = if r == 3 { (self.shape[0], self.shape[1], self.shape[2]) } else { (1, self.shape[0], self.shape[1]) };
        let n = o.shape[1];
        assert_eq!(k, o.shape[0]);
        let mut data = Vec::with_capacity(b * m * n);
        for row in 0..b * m {
            for j in 0..n {
                let mut s = zero;
                for q in 0..k {
                    s = add(s, mul(self.data[row * k + q], o.data[q * n + j]));
                }
                data.push(s);
            }
        }
        Nd { shape: if r == 3 { vec![b, m, n] } else { vec![m, n] }, data }
    }
    pub fn slice(&self, ranges: &[(usize, usize)]) -> Nd<T> {
        let shape: Vec<usize> = ranges.iter().map(|r| r.1 - r.0).collect();
        let data = indices(&shape)
            .map(|i| {
                let j: Vec<usize> = i.iter().zip(ranges).map(|(&a, r)| a + r.0).collect();
                self.at(&j)
            })
            .collect();
        Nd { shape, data }
    }
    pub fn reshape(&self, shape: &[usize]) -> Nd<T> {
        Nd::new(shape.to_vec(), self.data.clone())
    }
    pub fn transpose(&self) -> Nd<T> {
        let (m, n) = (self.shape[0], self.shape[1]);
        let mut data = Vec::new();
        for j in 0..n {
            for i in 0..m {
                data.push(self.data[i * n + j]);
            }
        }
        Nd { shape: vec![n, m], data }
    }
    pub fn fold<A>(&self, init: A, f: impl Fn(A, T) -> A) -> A {
        self.data.iter().fold(init, |a, &x| f(a, x))
    }
}
