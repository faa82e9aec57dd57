//! What each check enumerates.

use crate::case::{Act, Env};
use crate::ctx::{judge, Ctx};
use crate::explore::{self, family, typed, Family};
use crate::fonts::{self, build_at, entry, TAGS};
use crate::lookup;
use crate::mem::Mem;
use crate::monitors as m;
use crate::registry;
use crate::spec::{Profile, Root, Values};
use std::collections::HashMap;
use std::sync::Arc;

pub type Job = Box<dyn FnOnce(&mut Ctx) + Send>;

pub struct Plan {
    pub thorough: bool,
    pub jobs: Vec<(String, Job)>,
}

impl Plan {
    pub fn job(&mut self, label: &str, f: impl FnOnce(&mut Ctx) + Send + 'static) {
        self.jobs.push((label.to_string(), Box::new(f)));
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Everything a profile generates for a family.
    pub fn search<V>(&mut self, f: &Family, profile: Profile, name: &str, visit: V)
    where
        V: Fn(&mut Ctx, &Family, &mut Mem) + Send + Sync + 'static,
    {
        let visit = Arc::new(visit);
        let profile = Arc::new(profile);
        let label = format!("{} {}({}) {name}", f.name(), profile.name, profile.bound);
        let mut prefixes = vec![(vec![], false)];
        if profile.bound > 0 {
            prefixes.extend(explore::seeds(f, &profile).into_iter().map(|p| (p, true)));
        }
        // Few large jobs would leave workers idle; many small ones cost nothing.
        for (prefix, below) in prefixes {
            let (f, profile, visit) = (f.clone(), profile.clone(), visit.clone());
            self.job(&label, move |ctx| {
                explore::search(ctx, &f, &profile, prefix, below, &mut |c, f, m| {
                    c.sample(&f.name(), || sample(f, m));
                    visit(c, f, m)
                });
            });
        }
    }
}

fn sample(f: &Family, mem: &Mem) -> String {
    let s = &mem.segs[0].data;
    let hex: String = s.iter().take(80).map(|b| format!("{b:02x}")).collect();
    let more = if mem.len() > 80 { format!(".. ({} bytes)", mem.len()) } else { String::new() };
    format!("{}: {hex}{more}", f.name())
}

// Families

/// Whether a table is not made of many others.
fn narrow(f: &Family) -> bool {
    !matches!(
        f.root,
        Root::Gsub | Root::Gpos | Root::Gdef | Root::GsubLookups | Root::GposLookups | Root::Scripts | Root::Features
    )
}

fn gsub() -> Vec<Family> {
    let mut all = vec![];
    for (t, formats) in [(1, 2), (2, 1), (3, 1), (4, 1), (5, 3), (6, 3), (7, 1), (8, 1)] {
        for k in 1..=formats {
            let forced: &[u16] = if formats > 1 { &[k] } else { &[] };
            all.push(family(Root::GsubType(t), forced));
        }
    }
    all
}

fn gpos() -> Vec<Family> {
    let mut all = vec![];
    for (t, formats) in
        [(1, 2), (2, 2), (3, 1), (4, 1), (5, 1), (6, 1), (7, 3), (8, 3), (9, 1)]
    {
        for k in 1..=formats {
            let forced: &[u16] = if formats > 1 { &[k] } else { &[] };
            all.push(family(Root::GposType(t), forced));
        }
    }
    for k in 1..=3 {
        all.push(family(Root::Anchor, &[k]));
    }
    all
}

fn contexts() -> Vec<Family> {
    let mut all = vec![];
    for k in 1..=3 {
        all.push(family(Root::Context, &[k]));
        all.push(family(Root::ChainedContext, &[k]));
    }
    all
}

pub const EACH: [&[u16]; 9] = [&[1], &[2], &[3], &[4], &[5], &[6], &[7], &[8], &[9]];
const GSUB_MIX: &[u16] = &[1, 2, 3, 4, 5, 6, 7, 8, 0, 9, 10, 0x0101, 0xFFFF];
const GPOS_MIX: &[u16] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 10, 0x0101, 0xFFFF];

fn lookups() -> Vec<Family> {
    let mut all = vec![];
    for t in 0..8 {
        all.push(typed(Root::GsubLookups, &[], EACH[t]));
    }
    for t in 0..9 {
        all.push(typed(Root::GposLookups, &[], EACH[t]));
    }
    all.push(typed(Root::GsubLookups, &[], GSUB_MIX));
    all.push(typed(Root::GposLookups, &[], GPOS_MIX));
    all
}

fn directories() -> Vec<Family> {
    let mut all = vec![];
    for k in 0..=1 {
        all.push(typed(Root::Gsub, &[k], &[7, 1]));
        all.push(typed(Root::Gpos, &[k], &[9, 1]));
    }
    all
}

fn lists() -> Vec<Family> {
    vec![
        family(Root::Scripts, &[]),
        family(Root::Features, &[]),
        family(Root::Language, &[]),
    ]
}

fn common() -> Vec<Family> {
    let mut all = vec![];
    for k in 1..=2 {
        all.push(family(Root::Coverage, &[k]));
        all.push(family(Root::Class, &[k]));
    }
    all
}

fn corrections() -> Vec<Family> {
    let mut all: Vec<Family> =
        [1, 2, 3, 0x8000].iter().map(|k| family(Root::Correction, &[*k])).collect();
    all.extend((1..=3).map(|k| family(Root::Device, &[k])));
    all
}

fn gdef() -> Vec<Family> {
    let mut all: Vec<Family> = [0, 2, 3].iter().map(|k| family(Root::Gdef, &[*k])).collect();
    all.extend((1..=3).map(|k| family(Root::Caret, &[k])));
    all
}

fn store() -> Vec<Family> {
    vec![family(Root::Store, &[])]
}

fn fvar() -> Vec<Family> {
    vec![family(Root::Fvar, &[])]
}

fn cpal() -> Vec<Family> {
    (0..=1).map(|k| family(Root::Cpal, &[k])).collect()
}

/// One family for each format of each table.
pub fn everything() -> Vec<Family> {
    let mut all = gsub();
    all.extend(gpos());
    all.extend(directories());
    all.extend(lookups());
    all.extend(lists());
    all.extend(common());
    all.extend(corrections());
    all.extend(gdef());
    all.extend(store());
    all.extend(fvar());
    all.extend(cpal());
    all
}

/// As `everything` without families that differ in the formats of inner tables only.
fn roots() -> Vec<Family> {
    let mut all = gsub();
    all.extend(gpos());
    all.extend(directories());
    all.push(typed(Root::GsubLookups, &[], EACH[6]));
    all.push(typed(Root::GposLookups, &[], EACH[8]));
    all.extend(lists());
    all.extend(common());
    all.extend(corrections());
    all.extend(gdef());
    all.extend(store());
    all.extend(fvar());
    all.extend(cpal());
    all
}

// Shared plans

/// Families so small that more can be afforded.
fn decode_small(p: &mut Plan, all: &[Family]) {
    decode_to(p, all, 2);
}

/// Every aspect of the decoding of some tables.
fn decode(p: &mut Plan, all: &[Family]) {
    decode_to(p, all, 0);
}

fn decode_to(p: &mut Plan, all: &[Family], more: usize) {
    let long = explore::long_counts(p.thorough || more > 0);
    for f in all {
        p.search(f, explore::shapes(p.pick(2, 3) + more), "value", m::exact);
        p.search(f, explore::wide(p.pick(1, 2) + more), "value", m::exact);
        p.search(f, explore::counts(p.pick(2, 4) + more), "value", m::diff);
        p.search(f, explore::nulls(&[2], p.pick(3, 5) + more), "value", m::diff);
        p.search(f, explore::layouts(p.pick(1, 2) + more, 2), "value", m::diff);
        p.search(f, explore::distant(p.pick(1, 2) + more, 1), "value", m::exact);
        p.search(f, explore::scalars(p.pick(1, 2) + more, 1), "value", m::diff);
        p.search(f, explore::long(long.clone(), 1), "value", m::diff);
        p.search(f, explore::long(vec![1, 17, 64, 65, 255, 256, 257], 2), "value", m::diff);
        p.search(f, explore::shapes(p.pick(0, 1) + more), "boundary values", m::boundary);
        p.search(f, explore::wide(0), "boundary values", m::boundary);
        p.search(f, explore::shapes(0), "all values", m::every);
        p.search(f, explore::shapes(0), "pairs of words", m::any_pair);
        p.search(f, explore::wide(0), "pairs of words", m::any_pair);
        p.search(f, explore::wide(0), "small worlds", m::small_world);
        p.search(f, Profile { counts: vec![3], ..explore::shapes(0) }, "small worlds", m::small_world);
        for values in VALUES {
            p.search(f, explore::uniform(values, p.pick(1, 2), 2), "value", m::diff);
            if !matches!(f.root, Root::Gsub | Root::Gpos | Root::GsubLookups | Root::GposLookups) {
                p.search(f, explore::uniform(values, 1, 4), "value", m::diff);
            }
            let long = explore::long(vec![1, 2, 3, 17, 64, 300], p.pick(1, 2));
            p.search(f, Profile { values, ..long }, "value", m::diff);
        }
        absent(p, f);
        if p.thorough || more > 0 {
            p.search(f, explore::shapes(1), "pairs of words", m::any_pair);
            p.search(f, explore::wide(0), "all values", m::every);
            p.search(f, explore::shapes(1), "pairs of values", m::neighbours);
        }
        if more > 0 {
            p.search(f, explore::shapes(1), "all values", m::every);
            p.search(f, explore::nulls(&[2], 1), "all values", m::every);
        }
    }
}

/// Tables in which hardly anything is that can be absent.
fn absent(p: &mut Plan, f: &Family) {
    p.search(f, explore::absent(p.pick(1, 2), 1), "value", m::diff);
    p.search(f, explore::absent(p.pick(1, 2), 2), "value", m::diff);
    for count in [1, 2, 3, 5] {
        let bound = if count < 3 { p.pick(2, 3) } else { 1 };
        let few = Profile { kinds: crate::spec::kind::NULL, ..explore::absent(bound, count) };
        p.search(f, few, "value", m::diff);
    }
}

const VALUES: [Values; 6] = [
    Values::Same(0), Values::Same(1), Values::Same(0xFFFF), Values::Rising(0), Values::Rising(0x7FF0), Values::Falling(9),
];

/// The tables of the fonts that come with the library.
fn fixtures(p: &mut Plan, tags: &[(&[u8; 4], Root)]) {
    let mut paths: Vec<_> = match std::fs::read_dir("/repo/tests/fixtures") {
        Ok(all) => all.filter_map(|e| e.ok().map(|e| e.path())).collect(),
        Err(_) => vec![],
    };
    paths.sort();
    for path in paths {
        let bytes = match std::fs::read(&path) {
            Ok(bytes) => bytes,
            Err(_) => continue,
        };
        let mem = Mem::from_bytes(&bytes);
        let recs = match fonts::directory(&mem, mem.len(), 0) {
            Ok((_, recs)) => recs,
            Err(_) => continue,
        };
        for (tag, root) in tags {
            if let Some(rec) = recs.iter().find(|r| r.tag == **tag) {
                let from = rec.offset as usize;
                let to = from + rec.size as usize;
                if to > bytes.len() {
                    continue;
                }
                let data = bytes[from..to].to_vec();
                let root = *root;
                p.job("fixture", move |ctx| {
                    let mut mem = Mem::from_bytes(&data);
                    ctx.compare(root, &Env::default(), &mut mem);
                    ctx.stats.count("tables of real fonts", 1);
                });
            }
        }
    }
}

/// A value if it is well-formed and complete, and an error otherwise.
const WHOLE: u32 = judge::FAITHFUL | judge::REJECT | judge::EOF;

/// The plan of a property and what it holds against the library.
pub fn plan(prop: &str, thorough: bool) -> Option<(u32, Plan)> {
    let mut plan = Plan { thorough, jobs: vec![] };
    let p = &mut plan;
    use judge::*;
    let demands = match prop {
        "C01" => {
            c01(p);
            ALL & !PANIC
        }
        "C02" => {
            c02(p);
            crate::histories::endurance(p);
            crate::histories::crossed(p);
            ALL & !PANIC
        }
        "C03" => {
            c03(p);
            crate::histories::endurance(p);
            crate::histories::crossed(p);
            ALL & !PANIC
        }
        "C04" => {
            decode(p, &gsub());
            fixtures(p, &[(b"GSUB", Root::Gsub)]);
            WHOLE
        }
        "C05" => {
            decode(p, &gpos());
            c05(p);
            products(p, &PRODUCTS[..4]);
            fixtures(p, &[(b"GPOS", Root::Gpos)]);
            WHOLE
        }
        "C06" => {
            decode(p, &contexts());
            for f in contexts() {
                p.search(&f, explore::shapes(p.pick(2, 3)), "truncated", m::exact);
            }
            WHOLE
        }
        "C07" => {
            decode(p, &directories());
            decode(p, &lists());
            for f in directories().into_iter().chain(lists()) {
                p.search(&f, explore::tags(2, p.pick(1, 2)), "value", m::diff);
            }
            for f in lists() {
                p.search(&f, explore::tags(p.pick(2, 3), 2), "value", m::diff);
            }
            for f in lookups() {
                p.search(&f, explore::shapes(p.pick(1, 2)), "value", m::exact);
                p.search(&f, explore::wide(1), "value", m::diff);
                p.search(&f, explore::layouts(1, 2), "value", m::diff);
                p.search(&f, explore::distant(1, 1), "value", m::diff);
                p.search(&f, explore::shapes(0), "boundary values", m::boundary);
                p.search(&f, explore::shapes(0), "all formats", m::every_format);
            }
            fixtures(p, &[(b"GSUB", Root::Gsub), (b"GPOS", Root::Gpos)]);
            WHOLE
        }
        "C08" => {
            lookup::plan(p);
            FAITHFUL
        }
        "C09" => {
            decode_small(p, &common());
            for f in common() {
                for n in [1, 2, 3] {
                    let fixed = Profile { counts: vec![n], ..explore::shapes(0) };
                    p.search(&f, fixed, "all values", m::every);
                }
            }
            WHOLE
        }
        "C10" => {
            decode_small(p, &corrections());
            c10(p);
            WHOLE
        }
        "C11" => {
            decode(p, &gdef());
            for f in gdef() {
                p.search(&f, explore::nulls(&[1], p.pick(8, 12)), "value", m::exact);
            }
            fixtures(p, &[(b"GDEF", Root::Gdef)]);
            WHOLE
        }
        "C12" => {
            decode_small(p, &store());
            for f in store() {
                let counts = p.pick(vec![1, 0, 2, 3, 5], vec![1, 0, 2, 3, 4, 5, 7, 8]);
                let grid = Profile { counts, ..explore::counts(p.pick(4, 5)) };
                let grid = Profile { kinds: crate::spec::kind::COUNT | crate::spec::kind::PICK, ..grid };
                p.search(&f, grid, "grid", m::exact);
            }
            c12(p);
            products(p, &[Root::Store]);
            fixtures(p, &[(b"GDEF", Root::Gdef)]);
            WHOLE
        }
        "C13" => {
            decode_small(p, &fvar());
            for f in fvar() {
                let counts = p.pick(vec![1, 0, 2, 3], vec![1, 0, 2, 3, 4, 5, 8, 17]);
                let kinds = crate::spec::kind::COUNT | crate::spec::kind::PICK | crate::spec::kind::GAP;
                let gaps = explore::layouts(1, 1).gaps;
                let grid = Profile { counts, kinds, gaps, ..explore::counts(p.pick(5, 5)) };
                p.search(&f, grid, "grid", m::exact);
            }
            products(p, &[Root::Fvar]);
            c13(p);
            fixtures(p, &[(b"fvar", Root::Fvar)]);
            WHOLE
        }
        "C14" => {
            decode_small(p, &cpal());
            for f in cpal() {
                let counts = p.pick(vec![1, 0, 2, 3], vec![1, 0, 2, 3, 4, 5, 8]);
                let kinds = crate::spec::kind::COUNT | crate::spec::kind::PICK | crate::spec::kind::GAP;
                let gaps = explore::layouts(1, 1).gaps;
                let grid = Profile { counts, kinds, gaps, ..explore::counts(p.pick(4, 5)) };
                p.search(&f, grid, "grid", m::exact);
            }
            products(p, &[Root::Cpal]);
            fixtures(p, &[(b"CPAL", Root::Cpal)]);
            WHOLE
        }
        "C15" => {
            c15(p);
            REJECT
        }
        "C16" => {
            c16(p);
            PANIC
        }
        "C17" => {
            for f in everything() {
                p.search(&f, explore::shapes(p.pick(2, 3)), "truncated", m::truncate);
                p.search(&f, explore::wide(p.pick(1, 2)), "truncated", m::truncate);
                p.search(&f, explore::nulls(&[1, 2], p.pick(2, 3)), "truncated", m::truncate);
            }
            for f in roots() {
                p.search(&f, explore::distant(p.pick(1, 2), 1), "truncated", m::truncate);
                let counts = vec![1, 0, 40, 255, 256, 300, 1000];
                p.search(&f, explore::long(counts, 1), "truncated", m::truncate);
            }
            derived_truncations(p);
            font_truncations(p);
            EOF | FAITHFUL
        }
        "C18" => {
            for f in everything() {
                p.search(&f, explore::shapes(p.pick(2, 3)), "faults", m::faults);
                p.search(&f, explore::wide(p.pick(1, 2)), "faults", m::faults);
                p.search(&f, explore::shapes(p.pick(0, 1)), "pairs of faults", m::faults_twice);
                p.search(&f, explore::wide(0), "pairs of faults", m::faults_twice);
                p.search(&f, explore::nulls(&[1, 2], p.pick(1, 2)), "faults", m::faults);
            }
            font_faults(p);
            crate::histories::failures(p);
            FAITHFUL
        }
        "C19" => {
            for f in everything() {
                p.search(&f, explore::shapes(p.pick(2, 3)), "moved", m::shift);
                p.search(&f, explore::wide(p.pick(2, 3)), "moved", m::shift);
                p.search(&f, explore::nulls(&[2], p.pick(2, 3)), "moved", m::shift);
                p.search(&f, explore::distant(p.pick(1, 2), 1), "moved", m::shift);
            }
            c19_fonts(p);
            FAITHFUL
        }
        "C20" => {
            crate::histories::plan(p);
            ALL & !PANIC
        }
        "C21" => {
            c21(p);
            FAITHFUL | REJECT | EOF
        }
        "C22" => {
            c22(p);
            FAITHFUL
        }
        "C23" => {
            c23(p);
            FAITHFUL
        }
        "C24" => {
            for f in everything() {
                p.search(&f, explore::nulls(&[2], p.pick(4, 6)), "value", m::diff);
                p.search(&f, explore::nulls(&[1], p.pick(8, 12)), "value", m::diff);
                p.search(&f, explore::nulls(&[3], p.pick(2, 3)), "value", m::diff);
                p.search(&f, explore::bad_nulls(p.pick(2, 3)), "value", m::diff);
                p.search(&f, explore::shared(if narrow(&f) { p.pick(2, 3) } else { 2 }, 2), "value", m::diff);
                p.search(&f, explore::shared(if narrow(&f) { p.pick(3, 4) } else { 3 }, 1), "value", m::diff);
                p.search(&f, explore::distant_shared(2, 1), "value", m::diff);
                p.search(&f, explore::null_scalars(2, 1), "value", m::diff);
                p.search(&f, explore::null_scalars(p.pick(1, 2), 2), "value", m::diff);
                absent(p, &f);
            }
            for f in directories().into_iter().chain(lists()).chain(fvar()) {
                p.search(&f, explore::tags(2, 1), "value", m::diff);
            }
            for f in everything() {
                let f = &f;
                let one = Profile { counts: vec![2], ..explore::nulls(&[2], 1) };
                p.search(f, one, "offsets", |ctx, f, mem| {
                    // Any other value of an optional offset means that there is something.
                    let at: Vec<u64> = explore::accesses(f.root, mem)
                        .iter()
                        .filter(|a| a.nullable)
                        .map(|a| a.at)
                        .collect();
                    for a in at {
                        let old = mem.u16(a);
                        for v in explore::BOUNDARY {
                            explore::set16(mem, a, v);
                            m::diff(ctx, f, mem);
                        }
                        explore::set16(mem, a, old);
                    }
                });
            }
            FAITHFUL | REJECT
        }
        "C25" => {
            for f in everything() {
                p.search(&f, explore::shared(if narrow(&f) { p.pick(2, 3) } else { 2 }, 2), "value", m::diff);
                p.search(&f, explore::shared(if narrow(&f) { p.pick(3, 4) } else { 3 }, 1), "value", m::diff);
                p.search(&f, explore::distant_shared(2, 1), "value", m::diff);
                p.search(&f, explore::distant_shared(if narrow(&f) { p.pick(1, 2) } else { 1 }, 2), "value", m::diff);
                let deep = |quick, thorough| if narrow(&f) { p.pick(quick, thorough) } else { quick };
                let (two, three, all) = (deep(2, 3), deep(1, 2), deep(2, 3));
                for profile in [explore::sharing(two, 2), explore::sharing(three, 3)] {
                    let same = profile.clone();
                    p.search(&f, profile, "same value", move |c, f, mem| {
                        m::same_value(c, f, mem, &same)
                    });
                }
                for profile in [gaps(explore::layouts(all, 2)), gaps(explore::distant(2, 2))] {
                    let same = profile.clone();
                    p.search(&f, profile, "same value", move |c, f, mem| {
                        m::same_value(c, f, mem, &same)
                    });
                }
            }
            FAITHFUL
        }
        "C26" => {
            c26(p);
            FAITHFUL | EOF
        }
        "C27" => {
            crate::flags::plan(p);
            FAITHFUL | REJECT
        }
        "C28" => {
            for f in everything() {
                p.search(&f, explore::scalars(p.pick(1, 2), 1), "value", m::diff);
                p.search(&f, explore::scalars(1, 2), "value", m::diff);
                p.search(&f, explore::shapes(0), "all values", m::every_scalar);
                p.search(&f, explore::shapes(p.pick(0, 1)), "pairs of scalars", m::scalar_pair);
                p.search(&f, explore::wide(0), "pairs of scalars", m::scalar_pair_coarse);
                if p.thorough {
                    p.search(&f, explore::wide(0), "pairs of scalars", m::scalar_pair);
                    p.search(&f, explore::shapes(1), "all values", m::every_scalar);
                    p.search(&f, explore::wide(0), "all values", m::every_scalar);
                }
            }
            FAITHFUL
        }
        "C29" => {
            crate::weave::plan(p);
            FAITHFUL
        }
        _ => return None,
    };
    Some((demands, plan))
}

/// If this is the build without any feature.
fn strict() -> bool {
    fonts::checked()
}

fn gaps(profile: Profile) -> Profile {
    Profile { kinds: crate::spec::kind::GAP, ..profile }
}

// Fonts

/// Run a history if the worker is to go on.
fn run(ctx: &mut Ctx, ops: &[u16], mem: &Mem) {
    let judge = ctx.shared.judge;
    fonts::history(ctx, ops, &Env::default(), mem, judge);
}

fn c01(p: &mut Plan) {
    use fonts::*;
    // Signatures: the helper on all of them, the reader on all that resemble known ones.
    let blocks = 64u32;
    for b in 0..blocks {
        p.job("all signatures, helper", move |ctx| {
            let size = (1u64 << 32) / blocks as u64;
            let from = b as u64 * size;
            let mut wrong = vec![];
            for v in from..from + size {
                let tag = opentype::truetype::Tag((v as u32).to_be_bytes());
                let known = matches!(v as u32, 0x0001_0000 | 0x4F54_544F | 0x7472_7565 | 0x7479_7031 | 0x7474_6366);
                if opentype::accept(&tag) != known {
                    wrong.push(v as u32);
                    if wrong.len() > 3 {
                        break;
                    }
                }
            }
            ctx.stats.runs += size;
            ctx.stats.count("signatures given to the helper", size);
            for v in wrong {
                let text = format!("the helper is wrong about the signature {v:08X}");
                ctx.violation(&Act::Other(v as u64), &Env::default(), &Mem::new(), text);
            }
        });
    }
    let mut known = SIGNATURES.to_vec();
    known.push(*b"ttcf");
    for s in known {
        for i in 0..4usize {
            for j in i..4usize {
                p.job("signatures", move |ctx| {
                    let base = build_at(0, s, &[entry(b"test", &[1, 2, 3, 4])]);
                    let mut mem = base.clone();
                    for v in 0..=0xFFFFu32 {
                        if i == j && v > 0xFF {
                            break;
                        }
                        mem.segs[0].data[i] = v as u8;
                        if i != j {
                            mem.segs[0].data[j] = (v >> 8) as u8;
                        }
                        run(ctx, &[OPEN], &mem);
                    }
                });
            }
        }
    }
    // The number of records.
    let mut counts: Vec<u32> = (0..70).collect();
    for k in 6..16 {
        counts.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    counts.push(65535);
    if p.thorough {
        counts.extend((70..65536).step_by(13));
    }
    for chunk in counts.chunks(16) {
        let chunk = chunk.to_vec();
        p.job("counts", move |ctx| {
            for n in chunk {
                let mut b = vec![];
                b.extend(SIGNATURES[n as usize % 4]);
                b.extend((n as u16).to_be_bytes());
                b.extend([1, 2, 3, 4, 5, 6]);
                for i in 0..n {
                    for k in 0..4u32 {
                        b.extend((i.wrapping_mul(0x9E3779B1) ^ k.wrapping_mul(0x85EBCA77)).to_be_bytes());
                    }
                }
                let len = b.len() as u64;
                let mem = Mem::from_bytes(&b);
                run(ctx, &[OPEN], &mem);
                let mut cuts = vec![1u64, 4, 12, 15, 16, 17];
                if n < 40 {
                    cuts = (1..=len).collect();
                }
                for c in cuts {
                    if c <= len {
                        let env = Env { cut: Some(len - c), ..Env::default() };
                        let judge = ctx.shared.judge;
                        history(ctx, &[OPEN], &env, &mem, judge);
                    }
                }
                // One more than there are.
                let mut more = b.clone();
                let m = (n as u16).wrapping_add(1);
                more[4..6].copy_from_slice(&m.to_be_bytes());
                run(ctx, &[OPEN], &Mem::from_bytes(&more));
            }
        });
    }
    // Every word of header and records takes every value.
    let words = 6 + 8 * 2;
    for w in 0..words {
        p.job("all values", move |ctx| {
            let entries = [entry(b"abcd", &[1, 2, 3, 4, 5]), entry(b"GSUB", &[6; 8])];
            let mut mem = build_at(0, SIGNATURES[0], &entries);
            for v in 0..=0xFFFF {
                explore::set16(&mut mem, 2 * w, v);
                run(ctx, &[OPEN], &mem);
            }
        });
    }
    // Wherever the stream stands.
    p.job("positions", move |ctx| {
        for at in 0..=255u16 {
            for s in SIGNATURES {
                let entries: Vec<Entry> = (0..3).map(|i| entry(TAGS[(at + i) as usize % 16], &[i as u8; 8])).collect();
                let mem = build_at(at as u64, s, &entries);
                run(ctx, &[GOTO | at, OPEN], &mem);
                for t in 0..16 {
                    run(ctx, &[GOTO | at, OPEN, EXISTS | t], &mem);
                }
                // Opening twice gives the same.
                run(ctx, &[GOTO | at, OPEN, GOTO | at, OPEN], &mem);
                run(ctx, &[GOTO | at, OPEN, GOTO | (at / 2), OPEN, GOTO | at, OPEN], &mem);
            }
            for s in [*b"ttcf", *b"OTTo", [0, 2, 0, 0]] {
                let mem = build_at(at as u64, s, &[entry(b"GSUB", &[1])]);
                run(ctx, &[GOTO | at, OPEN], &mem);
            }
        }
    });
    // Tables in any order, repeated or not, with any tags: lists of three from an alphabet.
    p.job("lists", move |ctx| {
        let tags: [[u8; 4]; 7] =
            [*b"GSUB", *b"GPOS", *b"head", [0; 4], [0xFF; 4], *b"ttcf", *b"    "];
        for a in tags {
            for b in tags {
                for c in tags {
                    let all: Vec<Entry> = [a, b, c]
                        .iter()
                        .enumerate()
                        .map(|(i, t)| entry(t, &[i as u8 + 1; 4]))
                        .collect();
                    run(ctx, &[OPEN], &build(&all));
                    run(ctx, &[OPEN], &build(&all[..2]));
                    // Records that do not differ at all, or in their tags only.
                    let mut mem = build(&all);
                    let first: Vec<u8> = mem.segs[0].data[16..28].to_vec();
                    for k in [28, 44] {
                        mem.segs[0].data[k + 4..k + 16].copy_from_slice(&first);
                    }
                    run(ctx, &[OPEN], &mem);
                }
            }
        }
    });
    p.job("nothing", move |ctx| {
        for n in 0..12 {
            run(ctx, &[OPEN], &Mem::from_bytes(&vec![0x00u8; n]));
            for s in SIGNATURES {
                let mut b = s.to_vec();
                b.resize(n, 0);
                run(ctx, &[OPEN], &Mem::from_bytes(&b));
            }
        }
    });
    // Real fonts.
    real_fonts(p, &[fonts::OPEN]);
}

fn real_fonts(p: &mut Plan, ops: &'static [u16]) {
    let mut paths: Vec<_> = match std::fs::read_dir("/repo/tests/fixtures") {
        Ok(all) => all.filter_map(|e| e.ok().map(|e| e.path())).collect(),
        Err(_) => vec![],
    };
    paths.sort();
    for path in paths {
        if let Ok(bytes) = std::fs::read(&path) {
            p.job("real fonts", move |ctx| run(ctx, ops, &Mem::from_bytes(&bytes)));
        }
    }
}

/// Small well-formed tables, by index of the tag; `seed` makes them differ.
pub fn small(t: u16, seed: u8) -> Vec<u8> {
    let mut b: Vec<u8> = match t {
        fonts::CPAL => {
            let mut b = vec![0, 0, 0, 1, 0, 1, 0, 1, 0, 0, 0, 14, 0, 0];
            b.extend([seed, 1, 2, 3]);
            b
        }
        fonts::GDEF => vec![0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12, 0, 2, 0, 1, 0, seed, 0, seed, 0, 3],
        fonts::GPOS | fonts::GSUB => {
            let mut b = vec![0, 1, 0, 0, 0, 10, 0, 12, 0, 14, 0, 0, 0, 0];
            // One lookup without subtables.
            b.extend([0, 1, 0, 4, 0, 1, 0, seed & 0x0F, 0, 0]);
            b
        }
        fonts::FVAR => {
            let mut b = vec![0, 1, 0, 0, 0, 16, 0, 2, 0, 1, 0, 20, 0, 0, 0, 8];
            b.extend(*b"wght");
            b.extend([0, 0, 0, seed, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 1, seed]);
            b
        }
        fonts::HEAD => {
            let mut b = vec![0, 1, 0, 0, 0, 1, 0, 0];
            b.extend([seed, 9, 8, 7]);
            b.extend([0x5F, 0x0F, 0x3C, 0xF5, 0, 3, 3, seed]);
            b.extend([0; 30]);
            b.extend([0, 1, 0, 0]);
            b
        }
        fonts::HHEA => {
            let mut b = vec![0, 1, 0, 0, 0, seed];
            b.extend([0; 28]);
            b.extend([0, 2]);
            b
        }
        fonts::MAXP => vec![0, 0, 0x50, 0, 0, seed],
        fonts::HMTX => vec![0, seed, 0, 1, 0, 2, 0, 3, 0, 4],
        fonts::LOCA => vec![0, seed, 0, 1, 0, 2, 0, 3],
        8 => vec![],
        5 => {
            let mut b = vec![0; 78];
            b[3] = seed;
            b
        }
        6 => vec![0, 0, 0, 0, seed],
        14 => vec![0, 0, 0, 0, 0, 6, seed],
        15 => {
            let mut b = vec![0, 3, 0, 0];
            b.extend([0, 0, 0, seed]);
            b.extend([0; 24]);
            b
        }
        _ => vec![seed; 8],
    };
    if b.is_empty() {
        b = vec![seed; 4];
    }
    b
}

fn near(tag: &[u8; 4]) -> Vec<[u8; 4]> {
    let mut all = vec![];
    for i in 0..4 {
        for d in [1u8, 0x20, 0x80, 0xFF] {
            let mut t = *tag;
            t[i] = t[i].wrapping_add(d);
            all.push(t);
        }
        let mut t = *tag;
        t[i] ^= 0x20;
        all.push(t);
        let mut t = *tag;
        t[i] = 0;
        all.push(t);
    }
    let mut t = *tag;
    t.reverse();
    all.push(t);
    all.push(tag.to_ascii_lowercase());
    all.push(tag.to_ascii_uppercase());
    all.push([tag[1], tag[0], tag[3], tag[2]]);
    all.push([tag[0], tag[1], tag[2], b' ']);
    all.sort();
    all.dedup();
    all.retain(|t| t != tag);
    all
}

trait Case {
    fn to_ascii_lowercase(&self) -> [u8; 4];
    fn to_ascii_uppercase(&self) -> [u8; 4];
}
impl Case for [u8; 4] {
    fn to_ascii_lowercase(&self) -> [u8; 4] {
        self.map(|b| b.to_ascii_lowercase())
    }
    fn to_ascii_uppercase(&self) -> [u8; 4] {
        self.map(|b| b.to_ascii_uppercase())
    }
}

fn c02(p: &mut Plan) {
    use fonts::*;
    for t in 0..16u16 {
        // Lists of up to four records: this table (twice or more, differing), others, near misses.
        p.job("lists", move |ctx| {
            let tag = *TAGS[t as usize];
            let next = *TAGS[(t as usize + 1) % 16];
            let misses = near(&tag);
            let alphabet = [tag, next, misses[0], misses[misses.len() / 2], *b"zzzz"];
            let n = alphabet.len();
            let depth = if ctx.thorough() { 5 } else { 4 };
            for length in 0..=depth {
                for mut k in 0..n.pow(length) {
                    let mut all = vec![];
                    for i in 0..length {
                        let of = alphabet[k % n];
                        k /= n;
                        let index = TAGS.iter().position(|x| **x == of);
                        let seed = 1 + 16 * i as u8 + i as u8;
                        let data = small(index.map_or(0xFF, |i| i as u16), seed);
                        all.push(entry(&of, &data));
                    }
                    let mem = build(&all);
                    let u = (t + 1) % 16;
                    run(ctx, &[OPEN, EXISTS | t, EXISTS | u], &mem);
                    run(ctx, &[OPEN, POSITION | t, POSITION | u], &mem);
                    run(ctx, &[OPEN, TAKE | t, TAKE | u, TAKE | t], &mem);
                    run(ctx, &[OPEN, GOTO | 255, TAKE | t, GOTO | 1, POSITION | t], &mem);
                    if length < 3 {
                        for v in 0..16 {
                            run(ctx, &[OPEN, EXISTS | v, POSITION | v], &mem);
                        }
                    }
                }
            }
        });
        // Tags that resemble this one.
        p.job("near misses", move |ctx| {
            let tag = *TAGS[t as usize];
            for miss in near(&tag) {
                for all in [
                    vec![entry(&miss, &small(t, 1))],
                    vec![entry(&miss, &small(t, 1)), entry(&tag, &small(t, 2))],
                    vec![entry(&tag, &small(t, 1)), entry(&miss, &small(t, 2))],
                ] {
                    let mem = build(&all);
                    for v in 0..16 {
                        run(ctx, &[OPEN, EXISTS | v, POSITION | v, TAKE | v], &mem);
                    }
                }
            }
        });
        // Tags that differ in up to two bytes.
        p.job("tags", move |ctx| {
            let tag = *TAGS[t as usize];
            let mut mem = build(&[Entry { size: Some(0), ..entry(&tag, &[]) }]);
            let mut tape = crate::tape::Tape::new(&mem);
            let mut file = opentype::File::read(&mut tape).unwrap();
            for i in 0..4 {
                for j in i + 1..4 {
                    for v in 0..=0xFFFFu32 {
                        let mut it = tag;
                        it[i] = v as u8;
                        it[j] = (v >> 8) as u8;
                        file.fonts[0].offsets.records[0].tag.0 = it;
                        ctx.stats.runs += 1;
                        if exists(&file, t) != (it == tag) {
                            mem.segs[0].data[12..16].copy_from_slice(&it);
                            run(ctx, &[OPEN, EXISTS | t], &mem);
                        }
                    }
                }
            }
            ctx.stats.count("tags", 6 * 65536);
        });
        // Offsets over the whole range.
        p.job("offsets", move |ctx| {
            let tag = *TAGS[t as usize];
            let mut mem = build(&[
                Entry { size: Some(0), checksum: Some(0), offset: Some(0x40), ..entry(b"aaaa", &[]) },
                Entry { size: Some(0), checksum: Some(0), offset: Some(0), ..entry(&tag, &[]) },
                Entry { size: Some(0), checksum: Some(0), offset: Some(0x80), ..entry(b"zzzz", &[]) },
            ]);
            // Let the file be long enough for every offset.
            mem.segs.push(crate::mem::Seg { start: (1 << 32) + 64, data: vec![0; 4], def: vec![] });
            let mut put = |ctx: &mut Ctx, v: u32| {
                mem.segs[0].data[28 + 8..28 + 12].copy_from_slice(&v.to_be_bytes());
                run(ctx, &[OPEN, POSITION | t], &mem);
            };
            for k in 0..32 {
                for d in [-1i64, 0, 1] {
                    put(ctx, ((1i64 << k) + d) as u32);
                }
            }
            let low: &[u32] = &[0, 1, 0x7FFF, 0x8000, 0xFFFF];
            for h in 0..=0xFFFFu32 {
                let all = if ctx.thorough() || h % 257 == 0 || h < 16 { low } else { &low[..1] };
                for l in all {
                    put(ctx, h << 16 | l);
                }
            }
            let high: &[u32] = if ctx.thorough() { &[0, 1, 0x7FFF, 0x8000, 0xFFFF] } else { &[0x8000] };
            for h in high {
                for l in 0..=0xFFFF {
                    put(ctx, h << 16 | l);
                }
            }
        });
    }
    // Directories with many records, and the one asked for anywhere among them.
    for t in 0..16u16 {
        p.job("long directories", move |ctx| {
            let tag = *TAGS[t as usize];
            let next = (t + 1) % 16;
            let mut sizes = vec![5usize, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];
            sizes.extend([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 16384]);
            sizes.extend([20000, 32767, 32768, 40000, 65534, 65535]);
            for n in sizes {
                let data = small(t, 7);
                let others: Vec<Entry> = (0..n)
                    .map(|i| Entry {
                        checksum: Some(0),
                        offset: Some(3),
                        size: Some(0),
                        ..entry(&[b'A' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'~', 1 + (i / 676) as u8], &[])
                    })
                    .collect();
                let mut places = vec![0, 1, n / 2, n - 1, n - 2];
                places.extend([15, 16, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768]);
                places.retain(|k| *k < n);
                places.sort();
                places.dedup();
                for k in places {
                    let mut all = others.clone();
                    all[k] = entry(&tag, &data);
                    let mem = build(&all);
                    run(ctx, &[OPEN, EXISTS | t, POSITION | t, TAKE | t, EXISTS | next, POSITION | next], &mem);
                }
                let mem = build(&others);
                run(ctx, &[OPEN, EXISTS | t, POSITION | t, TAKE | t], &mem);
            }
        });
    }
    // Tables at distant places, with content.
    for t in [CPAL, GDEF, GPOS, GSUB, FVAR, HEAD, HHEA, MAXP, HMTX, LOCA] {
        p.job("distant tables", move |ctx| {
            for at in [0x100u64, 0xFFFE, 0x10000, 0x7FFF_FFF0, 0x8000_0000, 0xFFFF_0000, 0xFFFF_FFFF] {
                let probe = distant_table(t, &small(t, 77), at, 28);
                run(ctx, &[OPEN, EXISTS | t, POSITION | t, TAKE | t, GOTO | 3, TAKE | t], &probe);
            }
        });
    }
    // All tables in one font, asked for in every order of two.
    p.job("full fonts", move |ctx| {
        for turn in 0..16usize {
            let mut all: Vec<Entry> = (0..16).map(|t| entry(TAGS[t], &small(t as u16, t as u8 + 1))).collect();
            all.rotate_left(turn);
            let mem = build(&all);
            for a in 0..16 {
                for b in 0..16 {
                    run(ctx, &[OPEN, TAKE | a, POSITION | b, TAKE | b], &mem);
                    run(ctx, &[OPEN, POSITION | a, EXISTS | b, TAKE | b], &mem);
                }
            }
            for missing in 0..16 {
                let some: Vec<Entry> = all.iter().filter(|e| e.tag != *TAGS[missing]).cloned().collect();
                let mem = build(&some);
                let m = missing as u16;
                for a in 0..16 {
                    run(ctx, &[OPEN, TAKE | a, EXISTS | m, POSITION | m, TAKE | m, POSITION | a], &mem);
                }
            }
        }
    });
    real_fonts(p, &REAL_OPS);
}

const REAL_OPS: [u16; 40] = {
    let mut ops = [fonts::OPEN; 40];
    let mut i = 0;
    while i < 16 {
        ops[1 + i] = fonts::EXISTS | i as u16;
        ops[17 + i] = fonts::POSITION | i as u16;
        i += 1;
    }
    ops[33] = fonts::TAKE | fonts::GSUB;
    ops[34] = fonts::TAKE | fonts::GPOS;
    ops[35] = fonts::TAKE | fonts::GDEF;
    ops[36] = fonts::TAKE | fonts::FVAR;
    ops[37] = fonts::TAKE | fonts::CPAL;
    ops[38] = fonts::TAKE | fonts::HEAD;
    ops[39] = fonts::TAKE | fonts::GSUB;
    ops
};

/// A font whose only table is at a given place behind its directory.
fn distant_table(t: u16, data: &[u8], at: u64, least: u64) -> Mem {
    assert!(at >= least && least >= 28);
    let mut mem = build_at(0, *b"OTTO", &[entry(TAGS[t as usize], data)]);
    mem.segs[0].data[20..24].copy_from_slice(&(at as u32).to_be_bytes());
    mem.segs[0].data.truncate(28);
    let mut padded = data.to_vec();
    padded.resize(padded.len().div_ceil(4) * 4, 0);
    mem.segs.push(crate::mem::Seg { start: at, data: padded, def: vec![] });
    mem
}

/// The tables of this library anywhere in a font.
fn c19_fonts(p: &mut Plan) {
    use fonts::*;
    for (t, root) in [(CPAL, Root::Cpal), (GDEF, Root::Gdef), (FVAR, Root::Fvar), (GPOS, Root::Gpos), (GSUB, Root::Gsub)] {
        for f in everything().into_iter().filter(|f| f.root == root) {
            for profile in [explore::shapes(1), explore::wide(p.pick(0, 1))] {
                p.search(&f, profile, "moved in a font", move |ctx, _, mem| {
                    let data = mem.segs[0].data.clone();
                    for at in [
                        28u64, 29, 30, 31, 255, 256, 0xFFFD, 0xFFFF, 0x10000, 0x7FFF_FFFE, 0x7FFF_FFFF,
                        0x8000_0000, 0x8000_0001, 0xFFFF_FF00, 0xFFFF_FFFE, 0xFFFF_FFFF,
                    ] {
                        let probe = distant_table(t, &data, at, 28);
                        run(ctx, &[OPEN, GOTO | (at % 251) as u16, TAKE | t, POSITION | t], &probe);
                    }
                });
            }
        }
    }
}

fn pattern(n: usize, kind: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match kind {
            0 => (i * 37 + 11) as u8,
            1 => 0xFF,
            2 => 0,
            _ => 0x80 | (i * 13) as u8,
        })
        .collect()
}

fn c03(p: &mut Plan) {
    use fonts::*;
    let sizes = p.pick(41, 140);
    for t in 0..16u16 {
        p.job("sizes and flips", move |ctx| {
            let tag = TAGS[t as usize];
            let other = (t + 3) % 16;
            for size in 0..sizes {
                for kind in 0..4 {
                    let data = pattern(size, kind);
                    let all = [
                        entry(TAGS[other as usize], &pattern(9, 0)),
                        entry(tag, &data),
                        entry(b"last", &pattern(7, 3)),
                    ];
                    let mut mem = build(&all);
                    let ops = [OPEN, POSITION | t, POSITION | other, EXISTS | t];
                    run(ctx, &ops, &mem);
                    if kind != 0 && size % 5 != 0 {
                        continue;
                    }
                    // Every bit of the tables and of the records of this one and the other.
                    let from = 12 * 8 + 32;
                    for bit in from..mem.len() as usize * 8 {
                        let (i, k) = (bit / 8, bit % 8);
                        // Tags stay as they are.
                        if i < 12 + 48 && (i - 12) % 16 < 4 {
                            continue;
                        }
                        mem.segs[0].data[i] ^= 1 << k;
                        // Huge sizes are left to others.
                        run(ctx, &ops, &mem);
                        mem.segs[0].data[i] ^= 1 << k;
                    }
                }
            }
        });
        // Every pair of flips in a small table.
        p.job("pairs of flips", move |ctx| {
            for size in if ctx.thorough() { vec![5, 8, 12, 13, 16] } else { vec![5, 8, 13] } {
                for kind in [0, 1] {
                    let all = [entry(TAGS[t as usize], &pattern(size, kind)), entry(b"last", &[1; 4])];
                    let mut mem = build(&all);
                    let start = 12 + 32;
                    let n = size.div_ceil(4) * 4 * 8;
                    for a in 0..n {
                        for b in a + 1..n {
                            for k in [a, b] {
                                mem.segs[0].data[start + k / 8] ^= 1 << (k % 8);
                            }
                            run(ctx, &[OPEN, POSITION | t], &mem);
                            for k in [a, b] {
                                mem.segs[0].data[start + k / 8] ^= 1 << (k % 8);
                            }
                        }
                    }
                }
            }
        });
        // Every stored checksum with the right upper or lower half, and some others.
        p.job("stored checksums", move |ctx| {
            let mut mem = build(&[entry(TAGS[t as usize], &small(t, 5)), entry(b"last", &[1; 4])]);
            let right = u32::from_be_bytes(mem.segs[0].data[16..20].try_into().unwrap());
            let step = if ctx.thorough() { 1 } else { 7 };
            for v in (0..=0xFFFFu32).step_by(step) {
                for sum in [right & 0xFFFF_0000 | v, right & 0xFFFF | v << 16, right.wrapping_add(v), right.wrapping_sub(v)] {
                    mem.segs[0].data[16..20].copy_from_slice(&sum.to_be_bytes());
                    run(ctx, &[OPEN, POSITION | t], &mem);
                }
            }
            for sum in [0, !right, right.swap_bytes(), right.rotate_left(8), u32::MAX] {
                mem.segs[0].data[16..20].copy_from_slice(&sum.to_be_bytes());
                run(ctx, &[OPEN, POSITION | t, TAKE | t], &mem);
            }
        });
        // Words of a table: carries, order, and the word that is left out of one table only.
        p.job("words", move |ctx| {
            let words: [u32; 6] = [0, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x0123_4567];
            let n = words.len();
            for mut k in 0..n.pow(4) {
                let mut b = vec![];
                for _ in 0..4 {
                    b.extend(words[k % n].to_be_bytes());
                    k /= n;
                }
                for size in [16, 13, 12, 9, 8] {
                    let mut e = entry(TAGS[t as usize], &b);
                    e.size = Some(size);
                    let mem = build(&[e, entry(b"last", &[9; 4])]);
                    run(ctx, &[OPEN, POSITION | t], &mem);
                }
                // As if every word counted.
                let sum = b.chunks(4).fold(0u32, |s, c| s.wrapping_add(u32::from_be_bytes(c.try_into().unwrap())));
                let mut e = entry(TAGS[t as usize], &b);
                e.checksum = Some(sum);
                run(ctx, &[OPEN, POSITION | t], &build(&[e]));
            }
        });
    }
    // Damage to one table is of no consequence for the others.
    p.job("independence", move |ctx| {
        let all: Vec<Entry> = (0..16).map(|t| entry(TAGS[t], &small(t as u16, t as u8 + 1))).collect();
        let mut mem = build(&all);
        let mut ops = vec![OPEN];
        ops.extend((0..16).map(|t| POSITION | t));
        let deep: Vec<u16> = vec![OPEN, TAKE | CPAL, TAKE | GDEF, TAKE | GPOS, TAKE | GSUB, TAKE | FVAR, TAKE | HEAD];
        for i in 12..mem.len() as usize {
            if i < 12 + 256 && (i - 12) % 16 < 4 {
                continue;
            }
            let n = if ctx.thorough() { 8 } else { 2 };
            for k in 0..n {
                let bit = 1 << (k * 8 / n + i % (8 / n));
                mem.segs[0].data[i] ^= bit;
                run(ctx, &ops, &mem);
                run(ctx, &deep, &mem);
                mem.segs[0].data[i] ^= bit;
            }
        }
    });
    // Tables beyond the end, and without padding.
    p.job("ends", move |ctx| {
        for t in 0..16u16 {
            for size in 0..20usize {
                let mem = build(&[entry(TAGS[t as usize], &pattern(size, 0))]);
                for cut in 12..=mem.len() {
                    let env = Env { cut: Some(cut), ..Env::default() };
                    let judge = ctx.shared.judge;
                    history(ctx, &[OPEN, POSITION | t], &env, &mem, judge);
                }
            }
        }
    });
    // Larger tables.
    p.job("large tables", move |ctx| {
        for t in 0..16u16 {
            for size in [1000usize, 4096, 65535, 65536, 65537, (1 << 18) + 5, (1 << 20) + 3] {
                if size > 1 << 17 && !ctx.thorough() && t % 5 != 0 {
                    continue;
                }
                let mut mem = build(&[entry(b"GPOX", &[1; 4]), entry(TAGS[t as usize], &pattern(size, 0)), entry(b"last", &[9; 4])]);
                run(ctx, &[OPEN, POSITION | t], &mem);
                let n = mem.len() as usize;
                for i in (60..n).step_by(n / if ctx.thorough() { 60 } else { 13 }) {
                    mem.segs[0].data[i] ^= 0x10;
                    run(ctx, &[OPEN, POSITION | t], &mem);
                    mem.segs[0].data[i] ^= 0x10;
                }
            }
        }
    });
    // Tables of many megabytes, of filler but for the ends and the middle.
    for t in 0..16u16 {
        p.job("huge tables", move |ctx| {
            let sizes: &[u64] = match (ctx.thorough(), t % 4) {
                (true, 1) => &[(1 << 21) - 3, 1 << 22, (1 << 24) + 7, (1 << 25) + 2, (1 << 27) + 1],
                (true, _) => &[(1 << 21) - 3, 1 << 22, (1 << 24) + 7],
                (_, 1) => &[(1 << 21) - 3, 1 << 22, (1 << 24) + 7],
                _ => &[(1 << 22) + 1],
            };
            for &size in sizes {
                let mut mem = huge_table(t, size);
                let ops = [OPEN, POSITION | t];
                run(ctx, &ops, &mem);
                let last = mem.segs.len() - 1;
                for k in 1..=last {
                    mem.segs[k].data[1] ^= 0x10;
                    run(ctx, &ops, &mem);
                    mem.segs[k].data[1] ^= 0x10;
                }
                mem.segs[0].data[17] ^= 1;
                run(ctx, &ops, &mem);
            }
        });
    }
    real_fonts(p, &REAL_OPS);
}

/// A font of one table with the right checksum, of which little is spelled out.
fn huge_table(t: u16, size: u64) -> Mem {
    let mut mem = build_at(0, *b"OTTO", &[entry(TAGS[t as usize], &[0; 4])]);
    mem.segs[0].data.truncate(28);
    mem.segs[0].data[24..28].copy_from_slice(&(size as u32).to_be_bytes());
    let end = 28 + size;
    let mut seg = |start: u64, data: Vec<u8>| mem.segs.push(crate::mem::Seg { start, data, def: vec![] });
    seg(28, (0..16).map(|i| i * 7 + 3).collect());
    seg(28 + size / 8 * 4, vec![1, 2, 3, 4, 5]);
    let mut tail = vec![9, 8, 7, 6];
    tail.resize(4 + (size.div_ceil(4) * 4 - size) as usize, 0);
    seg(end - 4, tail);
    let rec = fonts::Rec { tag: *TAGS[t as usize], checksum: 0, offset: 28, size: size as u32 };
    if let Ok(sum) = fonts::checksum(&mem, mem.len(), &rec) {
        mem.segs[0].data[16..20].copy_from_slice(&sum.to_be_bytes());
    }
    mem
}

/// What is as long as several fields together say, ending too early.
fn derived_truncations(p: &mut Plan) {
    fn last(ctx: &mut Ctx, f: &Family, b: &[u8], n: usize) {
        let mut mem = Mem::from_bytes(b);
        m::diff(ctx, f, &mut mem);
        for cut in b.len().saturating_sub(n)..b.len() {
            let env = Env { cut: Some(cut as u64), ..Env::default() };
            ctx.compare(f.root, &env, &mut mem);
        }
    }
    for format in 1..=3u16 {
        p.job("devices, truncated", move |ctx| {
            let f = family(Root::Correction, &[format]);
            let most = if ctx.thorough() { 5000 } else { 1200 };
            for d in (0..most).chain([4095, 4096, 8191, 16383, 16384, 32767, 32768, 65534, 65535]) {
                let words = ((d as usize + 1) << format).div_ceil(16);
                let mut b = vec![];
                for w in [0xFFFF - d as u16, 0xFFFF, format] {
                    b.extend(w.to_be_bytes());
                }
                for i in 0..words {
                    b.extend((0xC3A5u16 ^ (i as u16).wrapping_mul(0x9E37)).to_be_bytes());
                }
                last(ctx, &f, &b, 10);
            }
        });
    }
    for (kind, format) in [(1u16, 1u16), (1, 2), (2, 1), (2, 2)] {
        for part in 0..8u16 {
            p.job("value formats, truncated", move |ctx| {
                let f = family(Root::GposType(kind), &[format]);
                for first in (0..256u16).filter(|f| f % 8 == part) {
                    let mut seconds = vec![0, 1, first, 0x50, 0xFF];
                    if kind == 1 {
                        seconds.truncate(1);
                    } else if ctx.thorough() {
                        seconds = (0..256).collect();
                    }
                    for second in seconds {
                        for nulls in [0u32, 0x5A] {
                            let b = value_formats(kind, format, first, second, nulls, 0);
                            last(ctx, &f, &b, b.len());
                        }
                    }
                }
            });
        }
    }
    for items in 0..6u16 {
        p.job("rows, truncated", move |ctx| {
            let f = family(Root::Store, &[]);
            for n in (0..9u16).chain([255, 256, 257]) {
                for w in (0..=n.min(9)).chain([n]).flat_map(|w| [w, w | 0x8000]) {
                    let mut b = vec![];
                    for v in [1u16, 0, 0, 1, 0, 12, items, w, n] {
                        b.extend(v.to_be_bytes());
                    }
                    for i in 0..n {
                        b.extend((0x1000 + i).to_be_bytes());
                    }
                    let unit = if w & 0x8000 != 0 { 2 } else { 1 };
                    for i in 0..items as usize * unit * ((w & 0x7FFF) as usize + n as usize) {
                        b.push((i * 7 + 1) as u8);
                    }
                    last(ctx, &f, &b, 300);
                }
            }
        });
    }
    for (axes, instances) in [(1u16, 1u16), (1, 3), (2, 2), (5, 1), (17, 2), (64, 3), (300, 1)] {
        p.job("axes and instances, truncated", move |ctx| {
            let f = family(Root::Fvar, &[]);
            for axis_more in [0u16, 1, 4] {
                for more in 0..5u16 {
                    let b = variations(axes, 20 + axis_more, instances, 4 + 4 * axes + more, 0);
                    last(ctx, &f, &b, b.len().min(700));
                }
            }
        });
    }
}

/// A font-variations table with as many bytes as it announces, and more.
fn variations(axes: u16, axis_size: u16, instances: u16, instance_size: u16, more: usize) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    for w in [1, 0, 16, 2, axes, axis_size, instances, instance_size] {
        b.extend(w.to_be_bytes());
    }
    let fill = |size: usize, flags: usize, seed: usize| -> Vec<u8> {
        let mut all: Vec<u8> = (0..size).map(|k| (seed * 29 + k * 7 + 1) as u8).collect();
        for k in [flags, flags + 1] {
            if k < size {
                all[k] = 0;
            }
        }
        all
    };
    for i in 0..axes as usize {
        b.extend(fill(axis_size as usize, 16, i));
    }
    for i in 0..instances as usize {
        b.extend(fill(instance_size as usize, 2, i + 1000));
    }
    b.extend(vec![0; more]);
    b
}

fn c13(p: &mut Plan) {
    // As many axes as instances can have coordinates for, and more.
    for axes in [100u16, 8191, 8192, 16380, 16381, 16382, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 49152, 65535] {
        p.job("many axes", move |ctx| {
            let f = family(Root::Fvar, &[]);
            let least = 4 + 4 * axes as u32;
            let mut sizes: Vec<u16> = vec![0, 1, 4, 6, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF];
            sizes.extend((0..5).filter_map(|k| u16::try_from(least + k).ok()));
            sizes.extend((0..5).map(|k| (least as u16).wrapping_add(k)));
            sizes.sort();
            sizes.dedup();
            let limit = ctx.max_out;
            ctx.max_out = 4_000_000;
            for size in sizes {
                for instances in [0u16, 1, 2] {
                    for axis_size in [20u16, 0] {
                        if axis_size == 20 && axes > 20000 && instances == 2 {
                            continue;
                        }
                        let more = if size as u32 >= least { 0 } else { 8 * 65536 };
                        let b = variations(axes, axis_size, instances, size, more);
                        m::exact(ctx, &f, &mut Mem::from_bytes(&b));
                    }
                }
            }
            ctx.max_out = limit;
        });
    }
}

fn font_truncations(p: &mut Plan) {
    use fonts::*;
    for turn in 0..16usize {
        p.job("fonts", move |ctx| {
            let mut all: Vec<Entry> =
                (0..16).map(|t| entry(TAGS[t], &small(t as u16, t as u8 + 1))).collect();
            all.rotate_left(turn);
            let mem = build(&all);
            let judge = ctx.shared.judge;
            let step = if ctx.thorough() { 1 } else { 3 };
            for cut in (0..=mem.len()).filter(|c| *c < 300 || *c % step == 0 || *c + 8 > mem.len()) {
                let env = Env { cut: Some(cut), ..Env::default() };
                let mut ops = vec![OPEN];
                for t in [CPAL, GDEF, GPOS, GSUB, FVAR, HEAD, HHEA, MAXP, HMTX, LOCA] {
                    ops.extend([POSITION | t, TAKE | t]);
                }
                history(ctx, &ops, &env, &mem, judge);
            }
        });
    }
}

fn font_faults(p: &mut Plan) {
    use crate::tape::Dev;
    use fonts::*;
    for t in 0..16u16 {
        p.job("fonts", move |ctx| {
            let other = (t + 5) % 16;
            let all = [entry(TAGS[other as usize], &small(other, 3)), entry(TAGS[t as usize], &small(t, 4))];
            let mem = build(&all);
            for op in [POSITION | t, TAKE | t] {
                crate::histories::faults(ctx, &[OPEN, op], &mem);
            }
            for (chunk, choppy) in [(1, false), (1, true), (2, true), (3, false), (5, true)] {
                let env = Env { chunk, choppy, ..Env::default() };
                history(ctx, &[OPEN, POSITION | t, TAKE | t, TAKE | other], &env, &mem, judge::ALL & !judge::PANIC);
            }
            let _ = Dev::Fail;
        });
    }
}

/// Every combination of value formats, each field with a value and a correction of its own.
fn c05(p: &mut Plan) {
    for (kind, format) in [(1u16, 1u16), (1, 2), (2, 1), (2, 2)] {
        for part in 0..16u16 {
            p.job("value formats", move |ctx| {
                let f = family(Root::GposType(kind), &[format]);
                for first in 0..256u16 {
                    if first % 16 != part {
                        continue;
                    }
                    for second in 0..=(if kind == 2 { 255u16 } else { 0 }) {
                        for nulls in [0u32, 0x5A] {
                            let b = value_formats(kind, format, first, second, nulls, 0);
                            m::exact(ctx, &f, &mut Mem::from_bytes(&b));
                        }
                        // Records and corrections at odd places.
                        let b = value_formats(kind, format, first, second, 0, 1);
                        m::diff(ctx, &f, &mut Mem::from_bytes(&b));
                    }
                }
            });
        }
    }
}

/// An adjustment of two records with these value formats; corrections are null according to a mask.
/// A pad byte, if any, comes in front of the set of pairs, or of everything behind the records.
fn value_formats(kind: u16, format: u16, first: u16, second: u16, nulls: u32, pad: u16) -> Vec<u8> {
    let size = |flags: u16| flags.count_ones() as u16;
    let records = if (kind, format) == (1, 1) { 1u16 } else { 2 };
    let glyph = u16::from((kind, format) == (2, 1));
    let row = glyph + size(first) + size(second);
    let head: u16 = match (kind, format) {
        (1, 1) => 3,
        (1, 2) => 4,
        (2, 1) => 7,
        _ => 8,
    };
    // Behind the records: a coverage and a class table, both empty, and corrections.
    let coverage = head + records * row;
    let class = coverage + 2;
    let corrections = class + 2;
    let base = if glyph == 1 { 6 } else { 0 };
    let mut w: Vec<u16> = vec![format, 2 * coverage + pad, first];
    match (kind, format) {
        (1, 1) => {}
        (1, 2) => w.push(2),
        // The set is at the sixth word.
        (2, 1) => w.extend([second, 1, 12 + pad, 2]),
        _ => w.extend([second, 2 * class + pad, 2 * class + pad, 1, 2]),
    }
    let mut next = 0u16;
    for i in 0..records {
        if glyph == 1 {
            w.push(0x0700 + i);
        }
        for (k, flags) in [first, second].into_iter().enumerate() {
            for bit in 0..8u16 {
                if flags & (1 << bit) == 0 {
                    continue;
                }
                let number = i * 16 + k as u16 * 8 + bit;
                if bit < 4 {
                    w.push(0x8101u16.wrapping_add(number * 0x0301));
                } else if nulls >> (number % 8) & 1 != 0 {
                    w.push(0);
                } else {
                    let shift = if glyph == 1 { 0 } else { pad };
                    w.push(2 * (corrections + 3 * next - base) + shift);
                    next += 1;
                }
            }
        }
    }
    let at = 2 * if glyph == 1 { 6 } else { w.len() };
    w.extend([1, 0, 2, 0]);
    for i in 0..next {
        w.extend([0x0A00 + i, 0x0B00 + i, 0x8000]);
    }
    let mut b: Vec<u8> = w.iter().flat_map(|w| w.to_be_bytes()).collect();
    for _ in 0..pad {
        b.insert(at, 0xEE);
    }
    b
}

/// Tables with two lists one inside of the other, both long.
fn products(p: &mut Plan, roots: &[Root]) {
    let mut sizes: Vec<(u16, u16)> = vec![
        (256, 256), (257, 255), (255, 257), (257, 257), (2, 32768), (32768, 2), (3, 21846), (21846, 3),
        (1, 65535), (65535, 1), (65535, 2), (2, 65535), (16, 4096), (4096, 16), (16, 4095), (220, 300),
        (16384, 4), (5, 13108), (10923, 6), (128, 256), (128, 257), (182, 182), (1000, 66), (1024, 512),
        (0, 65535), (65535, 0), (0, 256), (256, 0),
    ];
    if p.thorough {
        sizes.extend([(1024, 1024), (768, 300), (65535, 8), (8, 65535), (4096, 256), (256, 4096)]);
        for n in 1..=16u16 {
            let k = (65536 / n as u32) as u16;
            for k in [k.wrapping_sub(1), k, k.wrapping_add(1)] {
                sizes.extend([(n, k), (k, n)]);
            }
        }
    }
    for root in roots {
        for size in sizes.clone() {
            let root = *root;
            p.job("products", move |ctx| {
                let (a, b) = size;
                let limit = ctx.max_out;
                ctx.max_out = 12_000_000;
                for bytes in product(root, a, b) {
                    let f = family(root, &[]);
                    m::exact(ctx, &f, &mut Mem::from_bytes(&bytes));
                    ctx.stats.count("tables with two long lists", 1);
                }
                ctx.max_out = limit;
            });
        }
    }
}

const PRODUCTS: [Root; 7] = [
    Root::GposType(2), Root::GposType(4), Root::GposType(5), Root::GposType(6), Root::Store,
    Root::Fvar, Root::Cpal,
];

fn product(root: Root, a: u16, b: u16) -> Vec<Vec<u8>> {
    let area = a as usize * b as usize;
    let words = |w: Vec<u16>| -> Vec<u8> { w.iter().flat_map(|w| w.to_be_bytes()).collect() };
    // Offsets of anchors, all null, and, where possible, some that lead back into the matrix.
    let matrix = |back: bool| -> Vec<u16> {
        let mut w = vec![a];
        w.extend((0..area).map(|i| match (back, i) {
            (false, _) => 0,
            (_, 0) => 0x0100,
            (_, 127) => 1,
            (_, i) => [0, 1, 0x0100, 0, 1][(i * i / 3) % 5],
        }));
        w
    };
    let backs: &[bool] = if a & 0xFF == 0 && area > 130 { &[false, true] } else { &[false] };
    let mut all = vec![];
    match root {
        Root::GposType(2) => {
            for (first, second) in [(1u16, 0u16), (0, 8), (0x11, 0), (4, 2)] {
                let mut w = vec![2, 16, first, second, 16, 16, a, b];
                // The classes and the coverage come first in the matrix: all three are empty.
                let per = (first.count_ones() + second.count_ones()) as usize;
                if area * per > 1 << 19 {
                    continue;
                }
                for i in 0..area * per {
                    let correction = first == 0x11 && i % 2 == 1;
                    w.push(match i {
                        _ if correction => 0,
                        0 => 2,
                        1 => 0,
                        2 => 1,
                        3 => 0,
                        i => (i as u16).wrapping_mul(0x9E37),
                    });
                }
                if area * per == 0 || first == 0x11 {
                    w.extend([2, 0, 0, 0]);
                }
                // A coverage behind an empty matrix only; elsewhere a class table is one too.
                if w.len() > 12 {
                    w[1] = 20;
                }
                all.push(words(w));
            }
        }
        Root::GposType(4) | Root::GposType(6) => {
            for back in backs {
                let mut w = vec![1, 12, 12, b, 16, 18, 1, 0, 0];
                w.extend(matrix(*back));
                all.push(words(w));
            }
        }
        Root::GposType(5) => {
            for back in backs {
                let mut w = vec![1, 12, 12, b, 16, 18, 1, 0, 0, 1, 4];
                w.extend(matrix(*back));
                all.push(words(w.clone()));
                // Once more, shared.
                w[9] = 2;
                w[10] = 6;
                w.insert(11, 6);
                all.push(words(w));
            }
        }
        Root::Store => {
            // Subtables by regions, the subtables being one.
            let mut w = vec![1, 0, 8, a];
            let at = 8 + 4 * a as u32;
            w.extend((0..2 * a as usize).map(|i| if i % 2 == 0 { (at >> 16) as u16 } else { at as u16 }));
            w.extend([2, 1, b]);
            w.extend((0..b).map(|i| i.wrapping_mul(0x9E37)));
            w.extend((0..=b).map(|i| i.wrapping_mul(0x9E37)));
            if b > 0 {
                all.push(words(w));
            }
        }
        Root::Fvar => {
            // Instances by axes.
            if b <= 16382 {
                for more in [0, 2] {
                    let mut w = vec![1, 0, 16, 2, b, 20, a, 4 * b + 4 + more];
                    w.extend((0..10 * b as usize).map(|i| if i % 10 == 8 { 1 } else { i as u16 }));
                    for i in 0..a {
                        w.extend([i, 0]);
                        w.extend((0..2 * b).map(|k| k.wrapping_mul(0x9E37) ^ i));
                        if more > 0 {
                            w.push(!i);
                        }
                    }
                    all.push(words(w));
                }
            }
        }
        _ => {
            // Palettes by entries.
            let colors = (b as u32 + 3).min(65535) as u16;
            let mut w = vec![0, b, a, colors];
            w.extend([0, 0]);
            w.extend((0..a).map(|i| i % (colors - b + 1)));
            let at = 2 * w.len() as u32;
            w[4] = (at >> 16) as u16;
            w[5] = at as u16;
            w.extend((0..2 * colors as usize).map(|i| (i as u16).wrapping_mul(0x9E37)));
            all.push(words(w));
        }
    }
    all
}

fn c10(p: &mut Plan) {
    // All pairs of sizes that differ by little, and a grid of distant ones, for every format.
    for format in 0..=5u16 {
        for part in 0..16u32 {
            let thorough = p.thorough;
            p.job("sizes", move |ctx| {
                let f = family(Root::Correction, &[format]);
                let device = family(Root::Device, &[format]);
                let probe = |ctx: &mut Ctx, start: u16, end: u16| {
                    let bits = if start <= end { (end as u64 - start as u64 + 1) << format.min(3) } else { 0 };
                    let words = bits.div_ceil(16) as usize;
                    let mut b = Vec::with_capacity(6 + 2 * words);
                    for w in [start, end, format] {
                        b.extend(w.to_be_bytes());
                    }
                    for i in 0..words {
                        b.extend((0xC3A5u16 ^ (i as u16).wrapping_mul(0x9E37)).to_be_bytes());
                    }
                    let mut mem = Mem::from_bytes(&b);
                    if start <= end {
                        m::exact(ctx, &f, &mut mem);
                        m::exact(ctx, &device, &mut mem);
                    } else {
                        // With plenty of data behind.
                        mem = Mem::from_bytes(&[&b[..], &[7; 64]].concat());
                        m::diff(ctx, &f, &mut mem);
                        m::diff(ctx, &device, &mut mem);
                    }
                };
                let starts: [u16; 9] = [0, 1, 2, 9, 255, 256, 0x7FFF, 0x8000, 0xFFFF];
                let dense = if thorough { 70 } else { 40 };
                for start in starts {
                    for d in 0..dense {
                        if d % 16 != part {
                            continue;
                        }
                        if let Some(end) = start.checked_add(d as u16) {
                            probe(ctx, start, end);
                        }
                        if d > 0 && start as u32 >= d {
                            probe(ctx, start, start - d as u16);
                        }
                    }
                }
                for d in (0..=0xFFFFu32).filter(|d| d % 16 == part) {
                    // Every difference there can be.
                    if thorough && d % 7 == 0 || d < 300 || d % 4096 < 16 || d > 0xFFF0 {
                        probe(ctx, 0, d as u16);
                        probe(ctx, 0xFFFF - d as u16, 0xFFFF);
                        if d > 0 {
                            probe(ctx, d as u16, 0);
                            probe(ctx, 0xFFFF, 0xFFFF - d as u16);
                        }
                    }
                }
            });
        }
    }
    // Every third word, for some of the others.
    for root in [Root::Correction, Root::Device] {
      p.job("formats", move |ctx| {
        let f = family(root, &[]);
        for start in [0u16, 1, 3, 0x8000, 0xFFFF] {
            for end in [0u16, 1, 3, 0x8000, 0xFFFF] {
                for format in 0..=0xFFFFu16 {
                    if end > 8 && start < end && (1..=3).contains(&format) {
                        continue;
                    }
                    let mut b = vec![];
                    for w in [start, end, format, 0x1111, 0x2222, 0x3333, 0x4444] {
                        b.extend(w.to_be_bytes());
                    }
                    m::diff(ctx, &f, &mut Mem::from_bytes(&b));
                }
            }
        }
      });
    }
}

fn c12(p: &mut Plan) {
    // Item counts, word counts, and region counts on a grid, with exactly the bytes needed.
    for items in [0u16, 1, 2, 3, 7, 256, 300] {
        p.job("rows", move |ctx| {
            let f = family(Root::Store, &[]);
            let limit = if ctx.thorough() { 24 } else { 9 };
            let mut regions: Vec<u16> = (0..limit).collect();
            regions.extend([127, 128, 255, 256, 257]);
            for n in regions {
                let mut words: Vec<u16> = (0..=n.min(limit)).collect();
                words.extend([n, n.saturating_sub(1)]);
                for w in words.clone() {
                    words.push(w | 0x8000);
                }
                words.sort();
                words.dedup();
                for w in words {
                    let mut b = vec![];
                    for v in [1u16, 0, 0, 1, 0, 12, items, w, n] {
                        b.extend(v.to_be_bytes());
                    }
                    for i in 0..n {
                        b.extend((0x1000 + i).to_be_bytes());
                    }
                    let unit = if w & 0x8000 != 0 { 2 } else { 1 };
                    let row = unit * ((w & 0x7FFF) as usize + n as usize);
                    for i in 0..items as usize * row {
                        b.push((i * 7 + 1) as u8);
                    }
                    m::exact(ctx, &f, &mut Mem::from_bytes(&b));
                }
            }
        });
    }
    // More bytes in all than 16 or 24 bits count.
    for (items, w, n) in [
        (0xFFFFu16, 0u16, 1u16), (0xFFFF, 1, 1), (0x8000, 1, 1), (0x100, 0, 0x100), (0x101, 0, 0x100),
        (0xFFFF, 0x80, 0x80), (0xFFFF, 0x8080, 0x81), (0x101, 0, 0xFFFF), (0x40, 0xC000, 0x8000), (0x41, 0xC000, 0x8000),
    ] {
        p.job("many rows", move |ctx| {
            let f = family(Root::Store, &[]);
            let mut b = vec![];
            for v in [1u16, 0, 0, 1, 0, 12, items, w, n] {
                b.extend(v.to_be_bytes());
            }
            for i in 0..n {
                b.extend((0x1000u16.wrapping_add(i)).to_be_bytes());
            }
            let unit = if w & 0x8000 != 0 { 2 } else { 1 };
            let row = unit * ((w & 0x7FFF) as usize + n as usize);
            for i in 0..items as usize * row {
                b.push((i % 251) as u8);
            }
            let limit = ctx.max_out;
            ctx.max_out = 40_000_000;
            m::diff(ctx, &f, &mut Mem::from_bytes(&b));
            b.pop();
            m::diff(ctx, &f, &mut Mem::from_bytes(&b));
            ctx.max_out = limit;
        });
    }
    // Region counts up to the end of the range, with word counts that overflow in sum.
    p.job("large rows", move |ctx| {
        let f = family(Root::Store, &[]);
        for items in [0u16, 1, 2] {
            for n in [0x7FFEu16, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF] {
                for w in [0u16, 1, 2, 0x7FFF, 0x8000, 0x8001, 0x8002, 0xFFFF] {
                    if w & 0x7FFF > n {
                        continue;
                    }
                    let mut b = vec![];
                    for v in [1u16, 0, 0, 1, 0, 12, items, w, n] {
                        b.extend(v.to_be_bytes());
                    }
                    for i in 0..n {
                        b.extend(i.to_be_bytes());
                    }
                    let unit = if w & 0x8000 != 0 { 2 } else { 1 };
                    let row = unit * ((w & 0x7FFF) as usize + n as usize);
                    b.extend((0..items as usize * row).map(|i| (i * 5 + 3) as u8));
                    m::exact(ctx, &f, &mut Mem::from_bytes(&b));
                }
            }
        }
    });
}

/// The heads of each kind of table over all formats, in front of neutral data.
fn c15(p: &mut Plan) {
    for f in everything() {
        p.search(&f, explore::wrong(p.pick(2, 3), 1), "value", m::diff);
        p.search(&f, explore::wrong(1, 2), "value", m::diff);
        p.search(&f, explore::shapes(p.pick(0, 1)), "all formats", m::every_format);
        p.search(&f, explore::wide(0), "all formats", m::every_format);
        p.search(&f, explore::shapes(0), "boundary values", m::boundary);
        p.search(&f, explore::shapes(0), "pairs of values", m::neighbours);
    }
    // Versions: every pair of a major and a minor one from wide sets.
    for (root, minors) in [(Root::Gsub, 0xFFFFu32), (Root::Gpos, 0xFFFF), (Root::Gdef, 0xFFFF), (Root::Fvar, 0xFFFF)] {
        for major in [0u16, 1, 2, 3, 0x100, 0x101, 0x8001, 0xFFFF] {
            p.job("versions", move |ctx| {
                let f = family(root, &[]);
                let base = versioned(root);
                for minor in 0..=minors {
                    let mut b = base.clone();
                    b[..2].copy_from_slice(&major.to_be_bytes());
                    b[2..4].copy_from_slice(&(minor as u16).to_be_bytes());
                    m::diff(ctx, &f, &mut Mem::from_bytes(&b));
                }
            });
        }
    }
    // Lookup types.
    for (gsub, mix) in [(true, 8u16), (false, 9)] {
        p.job("lookup types", move |ctx| {
            let _ = mix;
            for t in 0..=0xFFFFu16 {
                let root = if gsub { Root::GsubType(t) } else { Root::GposType(t) };
                let f = family(root, &[]);
                for format in [0u16, 1, 2, 3] {
                    // Offsets lead to words of two: a coverage table of two ranges.
                    let mut words = vec![format];
                    words.extend([2u16; 60]);
                    let b: Vec<u8> = words.iter().flat_map(|w| w.to_be_bytes()).collect();
                    m::diff(ctx, &f, &mut Mem::from_bytes(&b));
                }
            }
        });
    }
    strings(p, p.pick(5, 6));
}

/// A table with a version, followed by enough to go on.
fn versioned(root: Root) -> Vec<u8> {
    match root {
        Root::Gsub | Root::Gpos => {
            let mut b = vec![0, 1, 0, 0, 0, 14, 0, 14, 0, 14];
            b.extend([0; 40]);
            b
        }
        Root::Gdef => {
            let mut b = vec![0, 1, 0, 0];
            b.extend([0; 40]);
            b
        }
        _ => {
            let mut b = vec![0, 1, 0, 0, 0, 16, 0, 2, 0, 1, 0, 20, 0, 1, 0, 8];
            b.extend([0; 40]);
            b
        }
    }
}

/// All strings of words over an alphabet, read as each kind of table.
fn strings(p: &mut Plan, length: usize) {
    const ALPHABET: [u16; 11] = [0, 1, 2, 3, 4, 6, 8, 0x10, 0x8000, 0xFFFF, 0x0100];
    let mut all = vec![
        Root::Gsub, Root::Gpos, Root::GsubLookups, Root::GposLookups, Root::Scripts,
        Root::Features, Root::Language, Root::Coverage, Root::Class, Root::Correction,
        Root::Device,
        Root::Context, Root::ChainedContext, Root::Gdef, Root::Caret, Root::Anchor, Root::Store,
        Root::Fvar, Root::Cpal,
    ];
    for t in [1, 2, 3, 4, 8] {
        all.push(Root::GsubType(t));
    }
    for t in [1, 2, 3, 4, 5, 6] {
        all.push(Root::GposType(t));
    }
    for root in all {
        let heads: Vec<Vec<u16>> = match root {
            Root::Gsub | Root::Gpos => vec![vec![1, 0], vec![1, 1]],
            Root::Gdef => vec![vec![1, 0], vec![1, 2], vec![1, 3]],
            Root::Fvar => vec![vec![1, 0, 16, 2], vec![1, 0]],
            Root::Store => vec![vec![1, 0, 0, 1, 0, 12], vec![1]],
            _ => vec![vec![]],
        };
        for head in heads {
            for w in ALPHABET {
                let head = head.clone();
                p.job("strings", move |ctx| {
                    let f = family(root, &[]);
                    for n in 1..=length {
                        explore::strings(ctx, &f, &head, Some(w), &ALPHABET, n, &mut |c, f, mem| {
                            m::diff(c, f, mem)
                        });
                    }
                });
            }
        }
    }
    // The same in front of enough data to be read to the end.
    let all = [
        Root::GsubType(1), Root::GsubType(4), Root::GsubType(5), Root::GsubType(6),
        Root::GsubType(8), Root::GposType(1), Root::GposType(2), Root::GposType(3),
        Root::GposType(4), Root::GposType(5), Root::GposType(6), Root::Scripts, Root::Features,
        Root::GsubLookups, Root::GposLookups, Root::Gdef, Root::Store, Root::Fvar, Root::Cpal,
        Root::Correction,
    ];
    for root in all {
        for w in ALPHABET {
            p.job("strings in front of data", move |ctx| {
                let f = family(root, &[]);
                for fill in [0u16, 1, 2, 3, 8, 0x8000] {
                    explore::strings(ctx, &f, &[], Some(w), &ALPHABET, length - 1, &mut |c, f, mem| {
                        for _ in 0..40 {
                            mem.segs[0].data.extend(fill.to_be_bytes());
                        }
                        m::diff(c, f, mem)
                    });
                }
            });
        }
    }
}

fn c16(p: &mut Plan) {
    for f in everything() {
        p.search(&f, explore::shapes(p.pick(1, 2)), "use", m::exercise);
        p.search(&f, explore::shapes(1), "boundary values", m::exercise_boundary);
        p.search(&f, explore::wrong(p.pick(2, 3), 1), "value", m::diff);
        p.search(&f, explore::shapes(0), "pairs of values", m::pairs);
        p.search(&f, explore::wide(0), "boundary values", m::exercise_boundary);
        if p.thorough {
            p.search(&f, explore::wide(0), "pairs of values", m::pairs);
            p.search(&f, explore::shapes(0), "triples of values", m::triples);
        }
        p.search(&f, explore::shapes(0), "truncated", m::truncate);
    }
    for f in roots() {
        // The builds differ in little.
        if p.thorough || strict() {
            p.search(&f, explore::shapes(0), "all values", m::every);
        }
        p.search(&f, explore::long(explore::long_counts(false), 1), "long", m::diff);
    }
    strings(p, p.pick(5, 6));
    // Pairs of sizes of device tables and so on: all boundary values for each of the first words.
    for f in everything() {
        p.search(&f, explore::shapes(0), "neighbours", m::neighbours);
    }
    c13(p);
    font_panics(p);
}

fn font_panics(p: &mut Plan) {
    use fonts::*;
    const V: [u32; 24] = [
        0, 1, 2, 3, 4, 5, 11, 12, 13, 27, 28, 29, 31, 32, 33, 0x7FFF_FFFF, 0x8000_0000,
        0x8000_0001, 0xFFFF_FFFA, 0xFFFF_FFFB, 0xFFFF_FFFC, 0xFFFF_FFFD, 0xFFFF_FFFE, 0xFFFF_FFFF,
    ];
    for t in 0..16u16 {
        p.job("font records", move |ctx| {
            let data = small(t, 3);
            let mut mem = build(&[entry(TAGS[t as usize], &data)]);
            mem.segs[0].data.extend([0; 32]);
            let right = u32::from_be_bytes(mem.segs[0].data[16..20].try_into().unwrap());
            for checksum in [right, 0, 1, u32::MAX] {
                for offset in V {
                    for size in V {
                        let d = &mut mem.segs[0].data;
                        d[16..20].copy_from_slice(&checksum.to_be_bytes());
                        d[20..24].copy_from_slice(&offset.to_be_bytes());
                        d[24..28].copy_from_slice(&size.to_be_bytes());
                        run(ctx, &[OPEN, EXISTS | t, POSITION | t], &mem);
                        run(ctx, &[OPEN, TAKE | t], &mem);
                    }
                }
            }
        });
    }
    p.job("font headers", move |ctx| {
        let all: Vec<Entry> = (0..4).map(|t| entry(TAGS[t + 1], &small(t as u16 + 1, 9))).collect();
        let mut mem = build(&all);
        for w in 0..(12 + 64) / 2 {
            let old = mem.u16(2 * w);
            for v in 0..=0xFFFF {
                // Sizes are covered above, and reading to their end would take long.
                explore::set16(&mut mem, 2 * w, v);
                run(ctx, &[OPEN, POSITION | 1, POSITION | 2, TAKE | 3, TAKE | 4], &mem);
            }
            explore::set16(&mut mem, 2 * w, old);
        }
    });
    p.job("short fonts", move |ctx| {
        const A: [u8; 8] = [0, 1, 2, b'O', b'T', b't', 0x7F, 0xFF];
        for mut k in 0..8usize.pow(6) {
            let mut b = vec![];
            for _ in 0..6 {
                b.push(A[k % 8]);
                k /= 8;
            }
            run(ctx, &[OPEN, TAKE | 3], &Mem::from_bytes(&b));
            b.splice(0..4, [0, 1, 0, 0]);
            b.extend([0; 30]);
            run(ctx, &[OPEN, TAKE | 3], &Mem::from_bytes(&b));
        }
    });
}

fn c21(p: &mut Plan) {
    for f in everything() {
        p.search(&f, explore::shapes(p.pick(1, 2)), "value", m::diff);
        p.search(&f, explore::nulls(&[1, 2], p.pick(2, 4)), "value", m::diff);
        p.search(&f, explore::bad_nulls(p.pick(2, 3)), "value", m::diff);
        p.search(&f, explore::wrong(1, 1), "value", m::diff);
        p.search(&f, explore::null_scalars(2, 1), "value", m::diff);
        p.search(&f, explore::shapes(p.pick(0, 1)), "truncated", m::truncate);
        p.search(&f, explore::wide(0), "truncated", m::truncate);
        p.search(&f, explore::nulls(&[1], p.pick(1, 2)), "truncated", m::truncate);
        p.search(&f, explore::shapes(0), "boundary values", m::boundary);
        p.search(&f, explore::wide(0), "boundary values", m::boundary);
    }
    for f in directories() {
        p.search(&f, explore::bad_nulls(p.pick(4, 6)), "value", m::boundary);
        if p.thorough || f.name().starts_with("Gsub/[0]") {
            p.search(&f, explore::shapes(0), "all values", m::every);
        }
    }
    for t in [4, 5, 6] {
        let f = family(Root::GposType(t), &[]);
        p.search(&f, explore::bad_nulls(p.pick(4, 6)), "value", m::exact);
        p.search(&f, explore::shapes(0), "all values", m::every);
        p.search(&f, explore::bad_nulls(1), "boundary values", m::boundary);
        p.search(&f, explore::null_scalars(p.pick(2, 3), 2), "value", m::diff);
    }
    // Checksums.
    for t in 0..16u16 {
        p.job("checksums", move |ctx| {
            use fonts::*;
            let all = [entry(TAGS[t as usize], &small(t, 9)), entry(b"last", &[0; 8])];
            let mut mem = build(&all);
            for i in 16..mem.len() as usize {
                for k in 0..8 {
                    mem.segs[0].data[i] ^= 1 << k;
                    run(ctx, &[OPEN, EXISTS | t, POSITION | t], &mem);
                    run(ctx, &[OPEN, TAKE | t], &mem);
                    mem.segs[0].data[i] ^= 1 << k;
                }
            }
        });
    }
}

fn c22(p: &mut Plan) {
    p.job("registered", registry::registered);
    let known: HashMap<(usize, [u8; 4]), registry::Entry> =
        registry::golden().into_iter().map(|e| ((e.registry, e.tag), e)).collect();
    let known = Arc::new(known);
    for r in 0..3 {
        if p.thorough {
            for high in (0..=0xFFFFu32).step_by(256) {
                let known = known.clone();
                p.job("all tags", move |ctx| {
                    for h in high..high + 256 {
                        registry::block(ctx, r, h as u16, &known);
                        if ctx.stopped() {
                            return;
                        }
                    }
                });
            }
            continue;
        }
        // Everything that differs from a registered tag in one byte, or in case.
        let known = known.clone();
        p.job("neighbours", move |ctx| {
            let all: Vec<_> = known.values().map(|e| e.tag).collect();
            for tag in all {
                for i in 0..4 {
                    for v in 0..=255u8 {
                        let mut t = tag;
                        t[i] = v;
                        registry::check(ctx, r, t, known.get(&(r, t)));
                        if v >= b' ' && v < 0x7F {
                            let t = t.map(|b| b ^ if b.is_ascii_alphabetic() { 0x20 } else { 0 });
                            registry::check(ctx, r, t, known.get(&(r, t)));
                        }
                    }
                }
            }
        });
    }
    if !p.thorough {
        // All tags of letters, digits, and spaces in the customary places.
        for r in 0..3 {
            for a in 0..26u8 {
                let known = known.clone();
                p.job("alphanumeric tags", move |ctx| {
                    let set: Vec<u8> = (b'a'..=b'z').chain(b'0'..=b'9').chain([b' ']).collect();
                    for b in &set {
                        for c in &set {
                            for d in &set {
                                let lower = [b'a' + a, *b, *c, *d];
                                let upper = lower.map(|b| b.to_ascii_uppercase());
                                for t in [lower, upper] {
                                    registry::check(ctx, r, t, known.get(&(r, t)));
                                }
                            }
                        }
                    }
                });
            }
        }
    }
}

fn c23(p: &mut Plan) {
    for f in everything() {
        p.search(&f, explore::shapes(p.pick(2, 3)), "memory", m::memory);
        p.search(&f, explore::wide(p.pick(1, 2)), "memory", m::memory);
        p.search(&f, explore::shapes(p.pick(1, 2)), "memory, boundary values", m::memory_boundary);
        p.search(&f, explore::wide(1), "memory, boundary values", m::memory_boundary);
        p.search(&f, explore::shapes(1), "memory, pairs of values", m::memory_neighbours);
        p.search(&f, explore::wide(p.pick(0, 1)), "memory, pairs of values", m::memory_neighbours);
    }
    for f in roots() {
        let counts = if p.thorough {
            explore::long_counts(false)
        } else {
            vec![1, 0, 2, 7, 8, 15, 16, 63, 64, 100, 255, 256, 1000, 4096, 10000, 32767, 32768, 65535]
        };
        p.search(&f, explore::long(counts, 1), "memory", m::memory_ends);
        p.search(&f, explore::shapes(1), "memory, truncated", m::memory_cuts);
        p.search(&f, explore::wide(0), "memory, truncated", m::memory_cuts);
    }
    m::known_demonstrations(p);
}

impl Plan {
    pub fn push(&mut self, label: &str, f: impl FnOnce(&mut Ctx) + Send + 'static) {
        self.job(label, f)
    }
}

fn c26(p: &mut Plan) {
    for f in everything() {
        p.search(&f, explore::long(explore::long_counts(p.thorough), 1), "value", m::exact);
        p.search(&f, explore::counts(p.pick(2, 4)), "value", m::exact);
        for values in VALUES {
            p.search(&f, explore::uniform(values, 1, 2), "value", m::diff);
            if !matches!(f.root, Root::Gsub | Root::Gpos | Root::GsubLookups | Root::GposLookups) {
                p.search(&f, explore::uniform(values, 1, 4), "value", m::diff);
            }
            p.search(&f, Profile { values, ..explore::long(vec![1, 2, 17, 40, 300], 1) }, "value", m::diff);
        }
        absent(p, &f);
        if p.thorough {
            p.search(&f, explore::shapes(0), "all counts", m::every_count);
        }
    }
    for f in roots() {
        p.search(&f, explore::shapes(0), "all counts", m::every_count);
        let counts = vec![1, 0, 2, 3, 16, 63, 64, 65, 128, 255, 256, 257, 300];
        p.search(&f, explore::long(counts, 2), "value", m::diff);
        p.search(&f, explore::long(vec![1, 2, 40, 41, 64, 100], 3), "value", m::diff);
        p.search(&f, explore::long(vec![2, 3, 5, 9], 4), "value", m::diff);
        if p.thorough {
            let counts = vec![1, 0, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257];
            p.search(&f, explore::long(counts, 2), "value", m::exact);
        }
    }
    uniform(p);
    products(p, &PRODUCTS);
}

/// Heads over an alphabet in front of a long run of the same word; as everything in it is valid,
/// counts and lists of offsets can be as long as there are counts.
fn uniform(p: &mut Plan) {
    const ALPHABET: [u16; 6] = [1, 2, 8, 0x0300, 0x8001, 0xFFFF];
    let all = [
        Root::GsubType(1), Root::GsubType(2), Root::GsubType(3), Root::GsubType(4),
        Root::GsubType(5), Root::GsubType(6), Root::GsubType(8), Root::GposType(1),
        Root::GposType(2), Root::GposType(3), Root::GposType(4), Root::GposType(5),
        Root::GposType(6), Root::Scripts, Root::Features, Root::Language, Root::GsubLookups,
        Root::GposLookups, Root::Coverage, Root::Class, Root::Gdef, Root::Store, Root::Fvar,
        Root::Cpal,
    ];
    let length = p.pick(4, 5);
    for root in all {
        let head: &[u16] = match root {
            Root::Gdef => &[1, 3],
            Root::Store => &[1, 0, 0],
            Root::Fvar => &[1, 0, 16, 2],
            _ => &[],
        };
        for w in ALPHABET {
            for v in ALPHABET {
                let mut head = head.to_vec();
                p.job("uniform", move |ctx| {
                    head.push(w);
                    let f = family(root, &[]);
                    for fill in [2u16, 1] {
                        let body: Vec<u8> = fill.to_be_bytes().repeat(250_000);
                        explore::strings(ctx, &f, &head, Some(v), &ALPHABET, length - 1, &mut |c, f, mem| {
                            // As long as the largest count can make use of.
                            mem.segs[0].data.extend(&body);
                            m::diff_small(c, f, mem);
                        });
                    }
                });
            }
        }
    }
}
