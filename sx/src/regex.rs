//! Leftmost-first regex search over symbolic bytes.
use crate::dd::*;
use crate::expr::*;
use crate::fx::Map;
use crate::prog::B;
use regex_automata::meta;
use regex_automata::nfa::thompson::{State, Transition, NFA};
use regex_automata::util::look::Look;
use regex_automata::util::primitives::StateID;
use std::sync::Arc;

pub struct Re {
    pub pat: String,
    pub nfa: NFA,
    pub nslots: usize,
    vm: meta::Regex,
}

/// Search of a concrete haystack (slots hold offset+1 or 0; empty = no match).
pub fn concrete(re: &Re, hay: &[u8], start: usize, end: usize, anchored: bool, keep: usize) -> Result<Vec<u32>, String> {
    let inp = regex_automata::Input::new(hay).span(start..end).anchored(if anchored {
        regex_automata::Anchored::Yes
    } else {
        regex_automata::Anchored::No
    });
    if keep == 0 {
        return Ok(if re.vm.is_match(inp) { vec![1] } else { vec![] });
    }
    let mut slots = vec![None; re.nslots.min(keep)];
    match re.vm.search_slots(&inp, &mut slots) {
        None => Ok(vec![]),
        Some(_) => Ok(slots.iter().map(|s| s.map_or(0, |x| x.get() as u32 + 1)).collect()),
    }
}

pub fn compile(pat: &str) -> Result<Re, String> {
    let nfa = NFA::compiler()
        .configure(NFA::config().utf8(true).which_captures(regex_automata::nfa::thompson::WhichCaptures::All))
        .syntax(regex_automata::util::syntax::Config::new())
        .build(pat)
        .map_err(|e| e.to_string())?;
    let vm = meta::Regex::new(pat).map_err(|e| e.to_string())?;
    let nslots = nfa.group_info().slot_len();
    Ok(Re { pat: pat.to_string(), nfa, nslots, vm })
}

/// Ordered list of threads: (state, slots)
type Threads = Vec<(u32, Vec<u32>)>;

pub struct Search<'a> {
    pub re: &'a Re,
    pub bytes: &'a [Val],
    pub start: usize,
    pub end: usize,
    pub anchored: bool,
    /// Slots the caller asks for; 0 = only whether there is a match.
    keep: usize,
    max_steps: u64,
    stamp: Vec<u64>,
    round: u64,
    memo: Map<(usize, Threads, Vec<u32>, Vec<(u32, u8)>), D>,
    outs: Map<Vec<u32>, u32>,
    pub out_list: Vec<Vec<u32>>,
    /// bytes (by expression) whose value must be remembered because they occur again later
    repeat: Map<u32, usize>,
    pub steps: u64,
    pub vacuous_multibyte: bool,
}

/// Result: diagram over outcome numbers, with the list of outcomes
/// (empty vector = no match; slots hold offset+1 or 0).
pub fn search<'a>(
    cx: &mut Ctx,
    pc: &mut Pc,
    re: &'a Re,
    bytes: &'a [Val],
    start: usize,
    end: usize,
    anchored: bool,
    keep: usize,
    max_steps: u64,
) -> Result<(D, Vec<Vec<u32>>), String> {
    let keep = keep.min(re.nslots);
    let anchored = anchored || re.nfa.is_always_start_anchored();
    let mut s = Search {
        re,
        bytes,
        start,
        end,
        anchored,
        keep,
        max_steps,
        stamp: vec![0; re.nfa.states().len()],
        round: 0,
        memo: Map::default(),
        outs: Map::default(),
        out_list: vec![],
        repeat: Map::default(),
        steps: 0,
        vacuous_multibyte: false,
    };
    s.out(vec![]);
    for (i, b) in bytes.iter().enumerate().take(end).skip(start) {
        if b.e != 0 {
            s.repeat.insert(b.e, i);
        }
    }
    let init: Threads = vec![];
    let d = s.go(cx, pc, start, init, vec![], &mut vec![])?;
    Ok((d, s.out_list))
}

impl<'a> Search<'a> {
    fn out(&mut self, v: Vec<u32>) -> u32 {
        if let Some(i) = self.outs.get(&v) {
            return *i;
        }
        let i = self.out_list.len() as u32;
        self.outs.insert(v.clone(), i);
        self.out_list.push(v);
        i
    }
    /// Add epsilon closure of `sid` to `list` (leftmost-first order).
    fn closure(&mut self, sid: StateID, mut slots: Vec<u32>, at: usize, list: &mut Threads) -> Result<(), String> {
        enum F {
            Explore(StateID),
            Restore(usize, u32),
        }
        let mut st = vec![F::Explore(sid)];
        while let Some(f) = st.pop() {
            match f {
                F::Restore(i, v) => slots[i] = v,
                F::Explore(mut sid) => loop {
                    if self.stamp[sid.as_usize()] == self.round {
                        break;
                    }
                    self.stamp[sid.as_usize()] = self.round;
                    let re = self.re;
                    match re.nfa.state(sid) {
                        State::Fail | State::Match { .. } | State::ByteRange { .. } | State::Sparse(_) | State::Dense(_) => {
                            list.push((sid.as_u32(), slots.clone()));
                            break;
                        }
                        State::Look { look, next } => {
                            let ok = match look {
                                Look::Start => at == 0,
                                Look::End => at == self.bytes.len(),
                                l => return Err(format!("look-around {:?} is not modelled", l)),
                            };
                            if !ok {
                                break;
                            }
                            sid = *next;
                        }
                        State::Union { alternates } => {
                            if alternates.is_empty() {
                                break;
                            }
                            for a in alternates[1..].iter().rev() {
                                st.push(F::Explore(*a));
                            }
                            sid = alternates[0];
                        }
                        State::BinaryUnion { alt1, alt2 } => {
                            st.push(F::Explore(*alt2));
                            sid = *alt1;
                        }
                        State::Capture { next, slot, .. } => {
                            let s = slot.as_usize();
                            if s < slots.len() {
                                st.push(F::Restore(s, slots[s]));
                                slots[s] = at as u32 + 1;
                            }
                            sid = *next;
                        }
                    }
                },
            }
        }
        Ok(())
    }
    /// `threads` are states that consumed the byte before `at` (not yet closed);
    /// `best` is the best match so far (empty = none).
    fn go(&mut self, cx: &mut Ctx, pc: &mut Pc, at: usize, pre: Threads, best: Vec<u32>, env: &mut Vec<(u32, u8)>) -> Result<D, String> {
        self.steps += 1;
        if self.steps > self.max_steps {
            return Err("regex search too large".into());
        }
        // close
        self.round += 1;
        let mut list: Threads = vec![];
        let mut best = best;
        for (s, sl) in pre {
            self.closure(StateID::must(s as usize), sl, at, &mut list)?;
        }
        // start a new thread only while nothing has matched
        if best.is_empty() && (!self.anchored || at == self.start) {
            let z = vec![0; self.keep];
            self.closure(self.re.nfa.start_anchored(), z, at, &mut list)?;
        }
        // cut at a match
        let mut cut = list.len();
        for (i, (s, sl)) in list.iter().enumerate() {
            if let State::Match { .. } = self.re.nfa.state(StateID::must(*s as usize)) {
                if self.keep == 0 {
                    let o = self.out(vec![1]);
                    return Ok(cx.dd.term(o as u64));
                }
                if sl[0] == sl[1] && at > 0 && at < self.bytes.len() {
                    // empty match: must be on a character boundary
                    let b = self.bytes[at];
                    let ok = if b.e == 0 {
                        if (b.v & 0xc0) == 0x80 {
                            return Err("empty match inside a character".into());
                        }
                        true
                    } else {
                        let t = cx.bin(pc, B::And, 8, 8, b, c(0xc0));
                        let e = cx.bin(pc, B::Eq, 8, 1, t, c(0x80));
                        e == c(0)
                    };
                    if !ok {
                        return Err("possible empty match inside a character".into());
                    }
                }
                best = sl.clone();
                cut = i;
                break;
            }
        }
        list.truncate(cut);
        list.retain(|(s, _)| !matches!(self.re.nfa.state(StateID::must(*s as usize)), State::Fail));
        if self.keep == 0 {
            // without captures the order of the threads does not matter
            list.sort();
        }
        let can_start = best.is_empty() && !self.anchored;
        if at >= self.end || (list.is_empty() && !can_start) {
            let o = self.out(best);
            return Ok(cx.dd.term(o as u64));
        }
        let key = (at, list.clone(), best.clone(), env.clone());
        if let Some(d) = self.memo.get(&key) {
            return Ok(*d);
        }
        let b = self.bytes[at];
        let step = |s: &Self, byte: u8| -> Threads {
            let mut nx: Threads = vec![];
            for (sid, sl) in &list {
                let to = match s.re.nfa.state(StateID::must(*sid as usize)) {
                    State::ByteRange { trans } => {
                        if trans.matches_byte(byte) {
                            Some(trans.next)
                        } else {
                            None
                        }
                    }
                    State::Sparse(t) => t.matches_byte(byte),
                    State::Dense(t) => t.matches_byte(byte),
                    _ => None,
                };
                if let Some(t) = to {
                    nx.push((t.as_u32(), sl.clone()));
                }
            }
            nx
        };
        let _ = Transition { start: 0, end: 0, next: StateID::ZERO };
        let known = if b.e == 0 { Some(b.v as u8) } else { env.iter().find(|x| x.0 == b.e).map(|x| x.1) };
        let r = if let Some(byte) = known {
            let nx = step(self, byte);
            self.go(cx, pc, at + 1, nx, best, env)?
        } else {
            let bd = cx.to_dd(pc, b).ok_or("byte expression too complex")?;
            // live byte values
            let vals = match &cx.ex[b.e as usize] {
                Ex::Sum { t, .. } if t.len() == 1 => {
                    let (v, tab) = t[0].clone();
                    let l = pc.live(cx, v);
                    let mut x: Vec<u64> = tab.iter().zip(l.iter()).filter(|x| *x.1).map(|x| *x.0).collect();
                    x.sort();
                    x.dedup();
                    x
                }
                _ => {
                    let (_, rel) = pc.related(cx, bd);
                    cx.dd.terminals(bd, rel.unwrap_or(TRUE), 256).ok_or("byte terminals")?
                }
            };
            let remember = self.repeat.get(&b.e).map_or(false, |l| *l > at);
            // group by resulting thread list
            let mut groups: Vec<(Threads, Vec<u64>)> = vec![];
            for v in vals {
                let nx = step(self, v as u8);
                if remember {
                    groups.push((nx, vec![v]));
                } else if let Some(g) = groups.iter_mut().find(|g| g.0 == nx) {
                    g.1.push(v);
                } else {
                    groups.push((nx, vec![v]));
                }
            }
            let mut acc: Option<D> = None;
            for (nx, vs) in groups {
                if remember {
                    env.push((b.e, vs[0] as u8));
                }
                let sub = self.go(cx, pc, at + 1, nx, best.clone(), env);
                if remember {
                    env.pop();
                }
                let sub = sub?;
                acc = Some(match acc {
                    None => sub,
                    Some(a) => {
                        let cond = cx.dd.map(bd, &mut |x| vs.contains(&x) as u64);
                        cx.dd.ite(cond, sub, a).ok_or("regex diagram too large")?
                    }
                });
            }
            acc.ok_or("no live byte value")?
        };
        self.memo.insert(key, r);
        Ok(r)
    }
}

pub type ReRef = Arc<Re>;
