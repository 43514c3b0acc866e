//! Which workloads, faults and violation classes decide each property.
pub struct Prop {
    pub id: &'static str,
    /// workload and weight
    pub work: &'static [(&'static str, u32)],
    pub accept: &'static str,
    pub quick: u64,
    pub thorough: u64,
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", work: &[("hall", 1)], accept: "panic", quick: 36000, thorough: 400000 },
    Prop { id: "C02", work: &[("hall", 1)], accept: "panic,share,lin,content", quick: 36000, thorough: 400000 },
    Prop { id: "C03", work: &[("hall", 1)], accept: "panic,lin,instant,content,share", quick: 40000, thorough: 500000 },
    Prop { id: "C04", work: &[("hall", 1)], accept: "panic,contain,content,lin,share", quick: 36000, thorough: 400000 },
    Prop { id: "C05", work: &[("vec", 1)], accept: "panic,inplace,torn,build", quick: 140000, thorough: 2000000 },
    Prop { id: "C06", work: &[("vec", 3), ("tensor", 2)], accept: "panic,operand,outofplace,build,product", quick: 140000, thorough: 2000000 },
    Prop { id: "C07", work: &[("tensor", 1)], accept: "panic,product", quick: 140000, thorough: 2000000 },
    Prop { id: "C08", work: &[("tensor", 1)], accept: "panic,explog,operand", quick: 75000, thorough: 800000 },
    Prop { id: "C09", work: &[("vec", 2), ("tensor", 2), ("stream", 1)], accept: "panic,conservation", quick: 140000, thorough: 2000000 },
    Prop { id: "C10", work: &[("stream", 1)], accept: "panic,stream", quick: 140000, thorough: 2000000 },
    Prop { id: "C11", work: &[("render", 1)], accept: "panic,render", quick: 140000, thorough: 2000000 },
    Prop { id: "C12", work: &[("share", 1)], accept: "panic,interfere", quick: 60000, thorough: 800000 },
    Prop { id: "C13", work: &[("mem", 3), ("vec", 1), ("tensor", 1)], accept: "memory", quick: 100000, thorough: 2000000 },
    Prop { id: "C14", work: &[("hash", 1)], accept: "panic,hash", quick: 36000, thorough: 500000 },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

pub fn workload(p: &Prop, r: &mut simrt::Rng) -> &'static str {
    let t: u32 = p.work.iter().map(|w| w.1).sum();
    let mut x = r.below(t as u64) as u32;
    for (n, w) in p.work {
        if x < *w {
            return n;
        }
        x -= w;
    }
    p.work[0].0
}
