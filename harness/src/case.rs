//! A generated case: a few configuration words and a list of operations whose raw arguments are
//! interpreted modulo the state they meet, so that every sub-list of a case is again a case.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Op {
    pub k: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Case {
    pub cfg: Vec<u32>,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn cfg(&self, i: usize) -> u32 {
        self.cfg.get(i).copied().unwrap_or(0)
    }

    pub fn encode(&self) -> String {
        let mut s = String::from("cfg");
        for c in &self.cfg {
            s += &format!(" {}", c);
        }
        s.push('\n');
        for o in &self.ops {
            s += &format!("op {} {} {} {}\n", o.k, o.a, o.b, o.c);
        }
        s.push_str("end\n");
        s
    }

    /// Reads every case of a text; lines starting with `#` are comments. (By hand: it is interpreted.)
    pub fn decode_all(text: &str) -> Vec<Case> {
        let mut out = Vec::new();
        let mut cur = Case::default();
        let t = text.as_bytes();
        let mut i = 0;
        let mut n: Vec<u32> = Vec::new();
        while i < t.len() {
            let first = t[i];
            n.clear();
            let mut v = None;
            while i < t.len() && t[i] != b'\n' {
                let c = t[i];
                if first != b'#' {
                    if c.is_ascii_digit() {
                        v = Some(v.unwrap_or(0u32) * 10 + (c - b'0') as u32);
                    } else if let Some(x) = v.take() {
                        n.push(x);
                    }
                }
                i += 1;
            }
            i += 1;
            n.extend(v);
            match first {
                b'c' => cur.cfg = n.clone(),
                b'o' => cur.ops.push(Op { k: n[0] as u8, a: n[1], b: n[2], c: n[3] }),
                b'e' => out.push(std::mem::take(&mut cur)),
                _ => {}
            }
        }
        out
    }

    pub fn hash64(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |x: u64| {
            h = mix(h ^ x);
        };
        for c in &self.cfg {
            add(*c as u64);
        }
        for o in &self.ops {
            add(o.k as u64);
            add(o.a as u64);
            add(o.b as u64);
            add(o.c as u64);
        }
        h
    }
}

/// splitmix64 finaliser
pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
