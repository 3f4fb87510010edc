//! The fast oracle against a per-code-point one, and the set helpers against bit vectors. No code
//! under test is involved in the answers.
use crate::gen;
use crate::model::{self, clip, difference, union};
use crate::refdata::{self, Interval, CATS, MAX};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

pub fn run() {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &[7; 32]);
    let mut runner = TestRunner::new_with_rng(Config::default(), rng);
    for d in refdata::data() {
        assert_eq!(d.runs[0].0, 0);
        assert_eq!(d.runs.last().expect("runs").1, MAX);
        assert!(d.runs.windows(2).all(|w| w[0].1 + 1 == w[1].0 && w[0].2 != w[1].2));
        assert_eq!(d.by_cat.iter().map(|c| model::size(c)).sum::<u64>(), u64::from(MAX) + 1);
    }
    assert!(CATS.windows(2).all(|w| w[0].2 < w[1].2));
    let mut kept: Vec<Vec<Interval>> = Vec::new();
    for _ in 0..1500 {
        let q = gen::query().new_tree(&mut runner).expect("tree").current();
        let fast = model::query(&q).expect("valid query");
        assert_eq!(fast, model::query_slow(&q), "{q:?}");
        assert!(model::not_canonical(&fast).is_none());
        kept.push(fast);
        if kept.len() >= 2 {
            let (a, b) = (&kept[kept.len() - 2], &kept[kept.len() - 1]);
            let bits = |x: &[Interval]| {
                let mut v = vec![false; MAX as usize + 1];
                for i in x {
                    v[i.0 as usize..=i.1 as usize].fill(true);
                }
                v
            };
            let (x, y) = (bits(a), bits(b));
            let zip = |f: fn(bool, bool) -> bool| x.iter().zip(&y).map(|(p, q)| f(*p, *q)).collect::<Vec<_>>();
            assert_eq!(bits(&union(a, b)), zip(|p, q| p || q));
            assert_eq!(bits(&difference(a, b)), zip(|p, q| p && !q));
            assert!(model::not_canonical(&union(a, b)).is_none());
            let (lo, hi) = (q.lo(), q.hi());
            assert_eq!(clip(a, lo, hi), difference(a, &difference(&[(0, MAX)], &[(lo, hi)])));
        }
    }
    println!("selftest: the oracle agrees with its slow version");
}
