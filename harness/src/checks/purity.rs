//! C28: results depend on nothing but the bytes.

use std::rc::Rc;
use std::sync::{Arc, Barrier};

use llvm_bitcursor::BitCursor;
use llvm_bitstream::parser::StreamEntry;
use llvm_bitstream::Bitstream;
use llvm_mapper::Bitcode;

use super::support::{layout_text, Layout};
use super::BASE;
use crate::bc::*;
use crate::engine::*;
use crate::stream::*;
use crate::util::short;
use crate::wild;

pub const C28: Check = Check {
    id: "C28",
    rule: "2-5 inputs (streams, bitcode files, damaged ones, near-copies of each other, data layouts, plain buffers), whose results are known from the generator or (when damaged) from reading them by themselves; then read again step by step in a random interleaving through different kinds of owners (slices at odd addresses, vectors, shared and boxed ones), or one after another out of one reused buffer, or concurrently in threads; non-trivial: at least one change from one unfinished input to another, a reused buffer, or threads",
    quick: 200_000,
    thorough: 5_000_000,
    run: c28,
    ..BASE
};

/// An input, and what reading it yields.
enum Job {
    Stream { bytes: Vec<u8>, ents: Vec<Ent>, ends: bool },
    File { bytes: Vec<u8>, models: Vec<ModModel> },
    /// Whatever it is, it's either refused, or maps to the same thing every time.
    Broken { bytes: Vec<u8>, maps: Option<String> },
    Layout { text: String },
    /// A buffer that is read some bits at a time.
    Bits { bytes: Vec<u8> },
}

impl Job {
    fn bytes(&self) -> &[u8] {
        match self {
            Job::Stream { bytes, .. } | Job::File { bytes, .. } | Job::Broken { bytes, .. } | Job::Bits { bytes } => {
                bytes
            }
            Job::Layout { text } => text.as_bytes(),
        }
    }

    /// All of it at once, out of `bytes`.
    fn run(&self, bytes: &[u8]) -> CaseResult {
        match self {
            Job::Stream { ents, ends, .. } => {
                let r = match Bitstream::from(bytes) {
                    Ok((_, b)) => drain(b, bytes.len()),
                    Err(e) => Read { ents: vec![], finish: Finish::Err(format!("{e:?}")) },
                };
                if let Some(d) = diff(&r.ents, ents) {
                    return Err(format!("a stream: {d}"));
                }
                ensure!(
                    (r.finish == Finish::End) == *ends,
                    "a stream that {} before now finishes with {:?}",
                    if *ends { "ended" } else { "failed" },
                    r.finish
                );
                Ok(())
            }
            Job::File { models, .. } => check_file(bytes, models),
            Job::Broken { maps, .. } => {
                let now = summary(bytes);
                ensure!(
                    now == *maps,
                    "a damaged file: {} before, now {}",
                    short(format!("{maps:?}")),
                    short(format!("{now:?}"))
                );
                Ok(())
            }
            Job::Layout { text } => layout(text),
            Job::Bits { .. } => {
                let mut c = BitCursor::new(bytes);
                for (i, b) in bytes.iter().enumerate() {
                    let g = c.read(8).map_err(|e| format!("{e:?}"))?;
                    ensure!(g == *b as u64, "byte {i} of a buffer: {b:#x}, got {g:#x}");
                }
                Ok(())
            }
        }
    }
}

fn layout(text: &str) -> CaseResult {
    if let (Ok(w), Ok(g)) = (Layout::parse(text), text.parse()) {
        w.is(&g).map_err(|e| format!("{text:?}: {e}"))?;
    }
    Ok(())
}

/// What of a mapped file is public; nothing when it is refused.
fn summary(bytes: &[u8]) -> Option<String> {
    let b = Bitcode::try_from(bytes).ok()?;
    let mut s = String::new();
    for m in &b.modules {
        let i = &m.identification;
        s += &format!("{:?} {:?} {:?} {:?} ", i.producer, i.epoch, m.module.triple, m.module.asm);
        s += &format!("{:?} ", m.module.deplibs);
        s += &format!("{:?} {:?}; ", m.strtab.as_ref(), m.symtab.as_ref().map(|s| s.as_ref().to_vec()));
    }
    Some(s)
}

/// Something that yields entries, whoever owns the bytes.
type Entries<'a> = Box<dyn Iterator<Item = Result<StreamEntry, String>> + 'a>;

fn entries<'a, T: AsRef<[u8]> + 'a>(owner: T) -> Result<Entries<'a>, String> {
    match Bitstream::from(owner) {
        Ok((_, b)) => Ok(Box::new(b.map(|r| r.map_err(|e| format!("{e:?}"))))),
        Err(e) => Err(format!("{e:?}")),
    }
}

struct Odd(Vec<u8>, usize);

impl AsRef<[u8]> for Odd {
    fn as_ref(&self) -> &[u8] {
        &self.0[self.1..]
    }
}

fn gen_stream(src: &mut Src) -> Job {
    let cfg = default_cfg(src);
    let tree = gen_tree(src, &cfg);
    let opts = Opts::normal(src);
    let e = encode(src, &tree, &opts);
    Job::Stream { bytes: with_magic(IR_MAGIC, &e.bytes), ents: e.ents, ends: true }
}

fn alone(bytes: Vec<u8>) -> Job {
    let (ents, ends) = match Bitstream::from(&bytes[..]) {
        Ok((_, b)) => {
            let r = drain(b, bytes.len());
            (r.ents, r.finish == Finish::End)
        }
        Err(_) => (vec![], false),
    };
    Job::Stream { bytes, ents, ends }
}

fn gen_job(src: &mut Src, before: &[Job]) -> Job {
    if !before.is_empty() && src.chance(1, 3) {
        // Much like an earlier one: the same, of the same length, or the same up to a point.
        let j = src.pick(before);
        let mut bytes = j.bytes().to_vec();
        match j {
            Job::Layout { text } => return Job::Layout { text: text.clone() },
            Job::Bits { .. } => {
                for b in &mut bytes {
                    *b = b.rotate_left(3) ^ 0x5a;
                }
                return Job::Bits { bytes };
            }
            Job::File { models, .. } if src.chance(1, 3) => {
                return Job::File { bytes, models: models.clone() };
            }
            Job::Stream { .. } => {
                damage(src, &mut bytes);
                return alone(bytes);
            }
            _ => {
                damage(src, &mut bytes);
                return Job::Broken { maps: summary(&bytes), bytes };
            }
        }
    }
    match src.weighted(&[5, 4, 1, 1]) {
        0 => gen_stream(src),
        1 => {
            let mut st = StrtabBuilder::default();
            let m = gen_module(src, &ModCfg::small(), &mut st);
            let f = single(src, m, st, 1);
            Job::File { bytes: encode_file(src, &f.tops).0, models: f.models }
        }
        2 => Job::Layout { text: layout_text(src) },
        _ => Job::Bits { bytes: src.bytes(40) },
    }
}

fn damage(src: &mut Src, bytes: &mut Vec<u8>) {
    match src.below(4) {
        0 => {}
        1 if bytes.len() > 8 => {
            // One bit.
            let i = 4 + src.below(bytes.len() - 4);
            bytes[i] ^= 1 << src.below(8);
        }
        2 if bytes.len() > 8 => bytes.truncate((4 + src.below(bytes.len() - 4)) & !3),
        _ => wild::mutate(src, bytes),
    }
}

fn c28(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..src.range(2, 6) {
        let j = gen_job(src, &jobs);
        jobs.push(j);
    }
    let mode = src.weighted(&[6, 3, 1]);
    for j in &jobs {
        obs.key(&j.bytes());
    }
    obs.sample(|| {
        let kinds: Vec<String> = jobs
            .iter()
            .map(|j| match j {
                Job::Stream { bytes, ents, ends } => {
                    format!("stream of {} bytes ({} entries{})", bytes.len(), ents.len(), if *ends { "" } else { ", failing" })
                }
                Job::File { bytes, .. } => format!("file of {} bytes", bytes.len()),
                Job::Broken { bytes, maps } => {
                    format!("damaged file of {} bytes ({})", bytes.len(), if maps.is_some() { "maps" } else { "refused" })
                }
                Job::Layout { text } => format!("layout {text:?}"),
                Job::Bits { bytes } => format!("buffer of {} bytes", bytes.len()),
            })
            .collect();
        format!("{}: {}", ["interleaved", "one buffer", "threads"][mode], kinds.join(", "))
    });
    checkpoint(src);
    match mode {
        0 => interleaved(src, obs, &jobs),
        1 => {
            obs.label("a reused buffer");
            obs.nontrivial = true;
            let size = jobs.iter().map(|j| j.bytes().len()).max().unwrap();
            let mut buffer = vec![0u8; size];
            for _ in 0..src.range(2, 8) {
                let j = src.pick(&jobs);
                let n = j.bytes().len();
                buffer[..n].copy_from_slice(j.bytes());
                j.run(&buffer[..n]).map_err(|e| format!("in a buffer that was used before: {e}"))?;
            }
            Ok(())
        }
        _ => {
            obs.label("threads");
            obs.nontrivial = true;
            let start = Barrier::new(jobs.len());
            std::thread::scope(|s| {
                let threads: Vec<_> = jobs
                    .iter()
                    .map(|j| {
                        let start = &start;
                        s.spawn(move || {
                            start.wait();
                            j.run(j.bytes())
                        })
                    })
                    .collect();
                for t in threads {
                    match t.join() {
                        Ok(r) => r.map_err(|e| format!("in a thread: {e}"))?,
                        Err(_) => return Err("a panic in a thread".to_string()),
                    }
                }
                Ok(())
            })
        }
    }
}

/// Something that is under way.
enum Open<'a> {
    Entries { it: Entries<'a>, got: Vec<Ent>, job: usize },
    Bits { c: BitCursor<&'a [u8]>, at: usize, job: usize },
}

fn interleaved(src: &mut Src, obs: &mut Obs, jobs: &[Job]) -> CaseResult {
    let mut open: Vec<Open> = vec![];
    let mut switches = 0;
    let mut last = usize::MAX;
    let mut budget = 400;
    // The streams start at different times; the rest happens at once, in between.
    let mut waiting: Vec<usize> = (0..jobs.len()).collect();
    while !(waiting.is_empty() && open.is_empty()) {
        if open.is_empty() || (!waiting.is_empty() && src.chance(1, 4)) {
            let i = waiting.remove(src.below(waiting.len()));
            let job = &jobs[i];
            match job {
                Job::Stream { bytes, ents, ends } => {
                    let kind = src.below(7);
                    let it = match kind {
                        0 => entries(&bytes[..]),
                        1 => entries(bytes.clone()),
                        2 => entries(bytes),
                        3 => entries(bytes.clone().into_boxed_slice()),
                        4 => entries(Rc::<[u8]>::from(&bytes[..])),
                        5 => entries(Arc::<[u8]>::from(&bytes[..])),
                        _ => {
                            let n = 1 + src.below(7);
                            let mut v = vec![0xff; n];
                            v.extend_from_slice(bytes);
                            entries(Odd(v, n))
                        }
                    };
                    match it {
                        Ok(it) => open.push(Open::Entries { it, got: vec![], job: i }),
                        Err(e) => {
                            ensure!(ents.is_empty() && !*ends, "a stream of owner kind {kind} was refused: {e}")
                        }
                    }
                }
                Job::Bits { bytes } => open.push(Open::Bits { c: BitCursor::new(&bytes[..]), at: 0, job: i }),
                j => {
                    if !open.is_empty() {
                        obs.label("mapped in between");
                    }
                    if let (Job::File { bytes, models }, true) = (j, src.chance(1, 3)) {
                        // From a stream that is already open.
                        let (_, b) = Bitstream::from(bytes.clone()).map_err(|e| format!("{e:?}"))?;
                        let b = Bitcode::try_from(b).map_err(|e| format!("an open stream was refused: {}", chain(&e)))?;
                        check_public(models, &b).map_err(|e| format!("from an open stream: {e}"))?;
                    }
                    j.run(j.bytes()).map_err(|e| format!("in between others: {e}"))?;
                }
            }
            continue;
        }
        let k = src.below(open.len());
        let job = match &open[k] {
            Open::Entries { job, .. } | Open::Bits { job, .. } => *job,
        };
        switches += (last != job && last != usize::MAX) as usize;
        last = job;
        // Without end when there is too much of it.
        budget -= 1;
        let steps = if budget < 0 { usize::MAX } else { src.range(1, 6) };
        let mut done = false;
        match (&mut open[k], &jobs[job]) {
            (Open::Entries { it, got, .. }, Job::Stream { ents, ends, bytes }) => {
                let mut n = 0;
                while n < steps && !done {
                    n += 1;
                    let finish = match it.next() {
                        Some(Ok(e)) => {
                            got.push(to_ent(e));
                            let i = got.len() - 1;
                            ensure!(
                                ents.get(i) == Some(&got[i]),
                                "entry {i} of a stream of {} bytes, among others: expected {}, got {}",
                                bytes.len(),
                                short(format!("{:?}", ents.get(i))),
                                short(format!("{:?}", got[i]))
                            );
                            continue;
                        }
                        None => true,
                        Some(Err(_)) => false,
                    };
                    done = true;
                    ensure!(
                        got.len() == ents.len() && finish == *ends,
                        "a stream among others {} after {} entries, rather than {} after {}",
                        if finish { "ends" } else { "fails" },
                        got.len(),
                        if *ends { "end" } else { "fail" },
                        ents.len()
                    );
                }
            }
            (Open::Bits { c, at, .. }, Job::Bits { bytes }) => {
                let n = (1 + src.below(63)).min(bytes.len() * 8 - *at);
                if n == 0 {
                    done = true;
                } else {
                    let want = (0..n).fold(0u64, |v, i| {
                        let p = *at + i;
                        v | ((bytes[p / 8] >> (p % 8) & 1) as u64) << i
                    });
                    let got = c.read(n).map_err(|e| format!("{n} bits at {at}: {e:?}"))?;
                    ensure!(got == want, "{n} bits at {at} of a buffer among others: {want:#x}, got {got:#x}");
                    *at += n;
                    ensure!(c.tell_bit() == *at, "at {} rather than {at}, among others", c.tell_bit());
                }
            }
            _ => unreachable!(),
        }
        if done {
            open.remove(k);
            last = usize::MAX;
        }
    }
    obs.label_if(switches > 0, "streams interleaved");
    obs.nontrivial = switches > 0;
    Ok(())
}
