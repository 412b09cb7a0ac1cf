//! The simulated random generators: streams addressed by a context number, with failures.
use crate::ch::mix;
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Kind {
    Good,
    Const(u8),
    Period(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Stream {
    pub kind: Kind,
    pub seed: u64,
    pub pos: u64,
    pub calls: u32,
    pub fail_at: u32,
    pub fired: bool,
    pub partial: bool,
    /// one bit of the stream that is inverted
    pub flip: u64,
}
impl Stream {
    pub fn new(kind: Kind, seed: u64) -> Stream {
        Stream { kind, seed, pos: 0, calls: 0, fail_at: u32::MAX, fired: false, partial: false, flip: u64::MAX }
    }
    fn byte(&self, i: u64) -> u8 {
        let b = match &self.kind {
            Kind::Good => (mix(self.seed ^ mix(i / 8)) >> (8 * (i % 8))) as u8,
            Kind::Const(c) => *c,
            Kind::Period(p) => p[(i % p.len() as u64) as usize],
        };
        if self.flip / 8 == i {
            b ^ 1 << (self.flip % 8)
        } else {
            b
        }
    }
}
static STREAMS: Mutex<Option<HashMap<u64, Stream>>> = Mutex::new(None);

pub fn set(ctx: u64, s: Stream) {
    STREAMS.lock().unwrap().get_or_insert_with(HashMap::new).insert(ctx, s);
}
pub fn get(ctx: u64) -> Stream {
    STREAMS.lock().unwrap().as_ref().unwrap()[&ctx].clone()
}
pub extern "C" fn fill(ctx: u64, buf: *mut u8, len: usize, _method: u32) -> i32 {
    if ctx >> 62 & 1 == 1 {
        // what a nested call of a generator reads: healthy, the same whenever asked
        let s = Stream::new(Kind::Good, ctx);
        for i in 0..len {
            unsafe { *buf.add(i) = s.byte(i as u64) }
        }
        return 0;
    }
    let mut g = STREAMS.lock().unwrap();
    let Some(s) = g.as_mut().and_then(|m| m.get_mut(&ctx)) else { return 1 };
    let out = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    let fail = s.calls == s.fail_at;
    s.calls += 1;
    if fail {
        s.fired = true;
        if s.partial {
            // a failing source may leave part of the buffer written
            for (i, x) in out.iter_mut().enumerate().take(len / 2) {
                *x = s.byte(s.pos + i as u64);
            }
        }
        return 1;
    }
    for (i, x) in out.iter_mut().enumerate() {
        *x = s.byte(s.pos + i as u64);
    }
    s.pos += len as u64;
    0
}
