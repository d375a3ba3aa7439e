//! The reference decoder: the formats as given in the OpenType specification.
//!
//! A decoder follows the description of a table in the specification and writes down the expected
//! values in the order in which `walk.rs` visits the result of the library.

use crate::sym;

pub struct Spec {
    pub tape: u32,
    /// The expected values along with the line that expects them.
    pub out: Vec<(u64, u32)>,
    /// The table is malformed.
    pub bad: bool,
    /// The malformed tables are of interest.
    pub adverse: bool,
    /// The number of elements available.
    pub budget: u64,
    /// The maximum number of elements in a list.
    pub limit: u64,
    /// The number of lists that are yet to be passed before the wide one.
    pub wide: u64,
    /// The length of the wide list.
    pub length: u64,
    /// The budget for value-record flags.
    pub flags: u64,
    /// One of the lists is longer than the tape.
    pub long: bool,
    /// The end of the tape.
    pub end: u64,
    /// The tape is over.
    pub over: bool,
    /// The position of the outermost table.
    pub root: u64,
    /// The number of placed tables.
    pub placed: u64,
}

/// The parameters of a run: 0 – budget, 1 – limit, 2 – wide list, 3 – length of the wide list,
/// 4 – flag budget, 5 – without malformed tables, 9 – one list is longer than the tape.
impl Spec {
    pub fn new(tape: u32) -> Self {
        let wide = sym::param(2);
        let long = sym::param(9) > 0;
        Spec {
            tape,
            out: Vec::with_capacity(64),
            bad: false,
            adverse: wide == 0 && !long && sym::param(5) == 0,
            budget: sym::param(0),
            limit: sym::param(1),
            wide,
            length: sym::param(3),
            flags: sym::param(4),
            long,
            end: u64::MAX,
            over: false,
            root: 0,
            placed: 0,
        }
    }

    /// The tape ends before this position.
    fn past(&self, at: u64) -> bool {
        self.over && sym::plain(at - self.root) > self.end - self.root
    }

    pub fn u8(&self, at: u64) -> u64 {
        if self.past(at + 1) {
            return 0;
        }
        sym::byte(self.tape, at) as u64
    }

    pub fn u16(&self, at: u64) -> u64 {
        if self.past(at + 2) {
            return 0;
        }
        u16::from_be_bytes([sym::byte(self.tape, at), sym::byte(self.tape, at + 1)]) as u64
    }

    pub fn u32(&self, at: u64) -> u64 {
        if self.past(at + 4) {
            return 0;
        }
        u32::from_be_bytes([
            sym::byte(self.tape, at),
            sym::byte(self.tape, at + 1),
            sym::byte(self.tape, at + 2),
            sym::byte(self.tape, at + 3),
        ]) as u64
    }

    /// Expect a value.
    #[track_caller]
    pub fn put(&mut self, value: u64) {
        self.out
            .push((value, std::panic::Location::caller().line()));
    }

    /// Expect a 16-bit number.
    #[track_caller]
    pub fn put16(&mut self, at: u64) -> u64 {
        let value = self.u16(at);
        self.put(value);
        value
    }

    /// Expect a 32-bit number.
    #[track_caller]
    pub fn put32(&mut self, at: u64) -> u64 {
        let value = self.u32(at);
        self.put(value);
        value
    }

    /// The table is malformed. At most one element is.
    pub fn fail(&mut self) {
        if self.over {
            return;
        }
        if self.bad || !self.adverse {
            sym::assume(false);
        }
        self.bad = true;
    }

    /// A condition that a well-formed table satisfies.
    pub fn require(&mut self, condition: bool) {
        if self.over {
            return;
        }
        if !self.adverse || self.bad {
            sym::assume(condition);
        } else if !condition {
            self.fail();
        }
    }

    /// The number of elements in a list.
    pub fn count(&mut self, value: u64) -> u64 {
        self.count_from(value, 0)
    }

    /// The number of elements in a list of at least so many.
    pub fn count_from(&mut self, value: u64, least: u64) -> u64 {
        if self.over {
            return least;
        }
        if self.wide > 0 {
            self.wide -= 1;
            let expected = if self.wide == 0 {
                // There is only one.
                self.wide = u64::MAX;
                self.length
            } else {
                least + 1
            };
            sym::assume(value == expected);
            return expected;
        }
        let most = if self.budget < self.limit {
            self.budget
        } else {
            self.limit
        };
        sym::assume(value <= least + most);
        let mut count = 0;
        while count < value {
            count += 1;
        }
        if self.long {
            count = sym::fix(count);
        }
        if count > least {
            self.budget -= count - least;
        }
        count
    }

    /// The number of elements in a list given their position and size.
    ///
    /// If one of the lists is to be long, it is longer than the tape.
    pub fn list(&mut self, value: u64, least: u64, at: u64, size: u64) -> u64 {
        if self.long && self.wide == 1 && !self.over {
            // There is nothing but this list to fail on, none of whose elements is on the tape.
            self.wide = 0;
            sym::assume(value > least && size > 0);
            self.end = self.root + sym::fix(sym::plain(at - self.root));
            self.over = true;
            self.bad = true;
            return least;
        }
        if self.long && self.wide == 0 && !self.over {
            let most = if self.budget < self.limit {
                self.budget
            } else {
                self.limit
            };
            if value > least + most {
                sym::assume(size > 0);
                let size = sym::plain(at - self.root) + size * most + size - 1;
                self.end = self.root + sym::fix(size);
                self.over = true;
                self.bad = true;
                return least;
            }
        }
        self.count_from(value, least)
    }

    /// The position of a table given by an offset.
    ///
    /// If one of the lists is to be long, tables are placed one after another. Those after the long
    /// list are past the end of the tape.
    pub fn place(&mut self, base: u64, offset: u64) -> u64 {
        if !self.long || self.past(base + 1) {
            return base + offset;
        }
        self.placed += 1;
        let position = self.root + 256 * self.placed;
        sym::assume(offset == sym::plain(position - base));
        position
    }

    /// A nullable offset.
    pub fn given(&mut self, offset: u64) -> bool {
        if self.over {
            sym::assume(offset == 0);
            return false;
        }
        if self.wide > 0 {
            sym::assume(offset > 0);
            return true;
        }
        if self.budget == 0 {
            sym::assume(offset == 0);
            return false;
        }
        if offset > 0 {
            self.budget -= 1;
            true
        } else {
            false
        }
    }

    /// A list of 16-bit numbers.
    #[track_caller]
    pub fn list16(&mut self, at: u64, count: u64) {
        self.put(count);
        for i in 0..count {
            self.put16(at + 2 * i);
        }
    }

    /// A list of 32-bit numbers.
    #[track_caller]
    pub fn list32(&mut self, at: u64, count: u64) {
        self.put(count);
        for i in 0..count {
            self.put32(at + 4 * i);
        }
    }

    /// A list of tables given by a list of 16-bit offsets.
    #[track_caller]
    pub fn jump16(&mut self, base: u64, at: u64, count: u64, body: fn(&mut Spec, u64)) {
        self.put(count);
        for i in 0..count {
            let offset = self.u16(at + 2 * i);
            let at = self.place(base, offset);
            body(self, at);
        }
    }

    /// A list of tables given by a list of nullable 16-bit offsets.
    #[track_caller]
    pub fn jump16_maybe(&mut self, base: u64, at: u64, count: u64, body: fn(&mut Spec, u64)) {
        self.put(count);
        for i in 0..count {
            let offset = self.u16(at + 2 * i);
            self.maybe(base, offset, body);
        }
    }

    /// A table given by a nullable offset.
    #[track_caller]
    pub fn maybe(&mut self, base: u64, offset: u64, body: fn(&mut Spec, u64)) {
        if self.given(offset) {
            self.put(1);
            let at = self.place(base, offset);
            body(self, at);
        } else {
            self.put(0);
        }
    }

    // ---- Common layout tables

    pub fn coverage(&mut self, at: u64) {
        let format = self.u16(at);
        match self.format(format, 2) {
            1 => {
                self.put(1);
                self.put(format);
                let n = self.put16(at + 2);
                let n = self.list(n, 0, at + 4, 2);
                self.list16(at + 4, n);
            }
            2 => {
                self.put(2);
                self.put(format);
                let n = self.put16(at + 2);
                let n = self.list(n, 0, at + 4, 6);
                self.put(n);
                for i in 0..n {
                    self.put16(at + 4 + 6 * i);
                    self.put16(at + 6 + 6 * i);
                    self.put16(at + 8 + 6 * i);
                }
            }
            _ => {}
        }
    }

    /// Choose among formats 1 to n.
    pub fn format(&mut self, format: u64, n: u64) -> u64 {
        if self.wide > 0 {
            let one = sym::param(6);
            let one = if one == 0 || one > n { 1 } else { one };
            sym::assume(format == one);
            return one;
        }
        for i in 1..=n {
            if format == i {
                return i;
            }
        }
        self.fail();
        0
    }

    pub fn class(&mut self, at: u64) {
        let format = self.u16(at);
        match self.format(format, 2) {
            1 => {
                self.put(1);
                self.put(format);
                self.put16(at + 2);
                let n = self.put16(at + 4);
                let n = self.list(n, 0, at + 6, 2);
                self.list16(at + 6, n);
            }
            2 => {
                self.put(2);
                self.put(format);
                let n = self.put16(at + 2);
                let n = self.list(n, 0, at + 4, 6);
                self.put(n);
                for i in 0..n {
                    self.put16(at + 4 + 6 * i);
                    self.put16(at + 6 + 6 * i);
                    self.put16(at + 8 + 6 * i);
                }
            }
            _ => {}
        }
    }

    /// Device and VariationIndex tables.
    pub fn correction(&mut self, at: u64) {
        let start = self.u16(at);
        let end = self.u16(at + 2);
        let format = self.u16(at + 4);
        if self.wide == 0 && format == 0x8000 {
            self.put(2);
            self.put(start);
            self.put(end);
            self.put(format);
            return;
        }
        let format = self.format(format, 3);
        if format == 0 {
            return;
        }
        if self.wide == 0 && start > end {
            self.fail();
            return;
        }
        sym::assume(start <= end);
        // Two, four, or eight bits per size, packed into words.
        let sizes = end - start + 1;
        let words = (sizes * (1 << format) + 15) / 16;
        // There is always at least one word.
        let words = self.list(words, 1, at + 6, 2);
        self.put(1);
        self.put(start);
        self.put(end);
        self.put(format);
        self.list16(at + 6, words);
    }

    /// SequenceLookupRecord.
    pub fn actions(&mut self, at: u64, count: u64) {
        self.put(count);
        for i in 0..count {
            self.put16(at + 4 * i);
            self.put16(at + 4 * i + 2);
        }
    }

    /// SequenceRule and ClassSequenceRule.
    pub fn rule(&mut self, at: u64) {
        let glyphs = self.put16(at);
        let actions = self.put16(at + 2);
        self.require(glyphs != 0);
        let glyphs = self.list(glyphs, 1, at + 4, 2);
        let actions = self.list(actions, 0, at + 2 + 2 * glyphs, 4);
        if glyphs == 0 {
            return;
        }
        self.list16(at + 4, glyphs - 1);
        self.actions(at + 4 + 2 * (glyphs - 1), actions);
    }

    /// SequenceRuleSet and ClassSequenceRuleSet.
    pub fn rules(&mut self, at: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
        self.jump16(at, at + 2, n, Spec::rule);
    }

    /// ChainedSequenceRule and ChainedClassSequenceRule.
    pub fn chained_rule(&mut self, at: u64) {
        let mut at = at;
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
        at += 2 + 2 * n;
        let n = self.put16(at);
        self.require(n != 0);
        let n = self.list(n, 1, at + 2, 2);
        if n == 0 {
            return;
        }
        self.list16(at + 2, n - 1);
        at += 2 + 2 * (n - 1);
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
        at += 2 + 2 * n;
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 4);
        self.actions(at + 2, n);
    }

    /// ChainedSequenceRuleSet and ChainedClassSequenceRuleSet.
    pub fn chained_rules(&mut self, at: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
        self.jump16(at, at + 2, n, Spec::chained_rule);
    }

    /// SequenceContext.
    pub fn context(&mut self, at: u64) {
        let format = self.u16(at);
        match self.format(format, 3) {
            1 => {
                self.put(1);
                self.put(format);
                let coverage = self.put16(at + 2);
                let n = self.put16(at + 4);
                let n = self.list(n, 0, at + 6, 2);
                self.list16(at + 6, n);
                let there = self.place(at, coverage);
                self.coverage(there);
                self.jump16_maybe(at, at + 6, n, Spec::rules);
            }
            2 => {
                self.put(2);
                self.put(format);
                let coverage = self.put16(at + 2);
                let class = self.put16(at + 4);
                let n = self.put16(at + 6);
                let n = self.list(n, 0, at + 8, 2);
                self.list16(at + 8, n);
                let there = self.place(at, coverage);
                self.coverage(there);
                let there = self.place(at, class);
                self.class(there);
                self.jump16_maybe(at, at + 8, n, Spec::rules);
            }
            3 => {
                self.put(3);
                self.put(format);
                let glyphs = self.put16(at + 2);
                let actions = self.put16(at + 4);
                let glyphs = self.list(glyphs, 0, at + 6, 2);
                let actions = self.list(actions, 0, at + 6 + 2 * glyphs, 4);
                self.list16(at + 6, glyphs);
                self.actions(at + 6 + 2 * glyphs, actions);
                self.jump16(at, at + 6, glyphs, Spec::coverage);
            }
            _ => {}
        }
    }

    /// ChainedSequenceContext.
    pub fn chained_context(&mut self, at: u64) {
        let format = self.u16(at);
        match self.format(format, 3) {
            1 => {
                self.put(1);
                self.put(format);
                let coverage = self.put16(at + 2);
                let n = self.put16(at + 4);
                let n = self.list(n, 0, at + 6, 2);
                self.list16(at + 6, n);
                let there = self.place(at, coverage);
                self.coverage(there);
                self.jump16_maybe(at, at + 6, n, Spec::chained_rules);
            }
            2 => {
                self.put(2);
                self.put(format);
                let coverage = self.put16(at + 2);
                let backward = self.put16(at + 4);
                let class = self.put16(at + 6);
                let forward = self.put16(at + 8);
                let n = self.put16(at + 10);
                let n = self.list(n, 0, at + 12, 2);
                self.list16(at + 12, n);
                let there = self.place(at, coverage);
                self.coverage(there);
                let there = self.place(at, backward);
                self.class(there);
                let there = self.place(at, class);
                self.class(there);
                let there = self.place(at, forward);
                self.class(there);
                self.jump16_maybe(at, at + 12, n, Spec::chained_rules);
            }
            3 => {
                self.put(3);
                self.put(format);
                let one = at + 2;
                let n1 = self.put16(one);
                let n1 = self.list(n1, 0, one + 2, 2);
                self.list16(one + 2, n1);
                let two = one + 2 + 2 * n1;
                let n2 = self.put16(two);
                let n2 = self.list(n2, 0, two + 2, 2);
                self.list16(two + 2, n2);
                let three = two + 2 + 2 * n2;
                let n3 = self.put16(three);
                let n3 = self.list(n3, 0, three + 2, 2);
                self.list16(three + 2, n3);
                let four = three + 2 + 2 * n3;
                let n4 = self.put16(four);
                let n4 = self.list(n4, 0, four + 2, 4);
                self.actions(four + 2, n4);
                self.jump16(at, one + 2, n1, Spec::coverage);
                self.jump16(at, two + 2, n2, Spec::coverage);
                self.jump16(at, three + 2, n3, Spec::coverage);
            }
            _ => {}
        }
    }

    // ---- Scripts, features, and lookups

    /// LangSys.
    pub fn language(&mut self, at: u64) {
        let order = self.put16(at);
        self.require(order == 0);
        self.put16(at + 2);
        let n = self.put16(at + 4);
        let n = self.list(n, 0, at + 6, 2);
        self.list16(at + 6, n);
    }

    /// Script.
    pub fn script(&mut self, at: u64) {
        let default = self.put16(at);
        let n = self.put16(at + 2);
        let n = self.list(n, 0, at + 4, 6);
        self.put(n);
        for i in 0..n {
            self.put32(at + 4 + 6 * i);
            self.put16(at + 8 + 6 * i);
        }
        self.maybe(at, default, Spec::language);
        self.put(n);
        for i in 0..n {
            let offset = self.u16(at + 8 + 6 * i);
            let there = self.place(at, offset);
            self.language(there);
        }
    }

    /// ScriptList.
    pub fn scripts(&mut self, at: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 6);
        self.put(n);
        for i in 0..n {
            self.put32(at + 2 + 6 * i);
            self.put16(at + 6 + 6 * i);
        }
        self.put(n);
        for i in 0..n {
            let offset = self.u16(at + 6 + 6 * i);
            let there = self.place(at, offset);
            self.script(there);
        }
    }

    /// Feature.
    pub fn feature(&mut self, at: u64) {
        let parameters = self.put16(at);
        let n = self.put16(at + 2);
        let n = self.list(n, 0, at + 4, 2);
        self.list16(at + 4, n);
        // The content of feature parameters is not interpreted.
        let given = self.given(parameters);
        self.put(given as u64);
    }

    /// FeatureList.
    pub fn features(&mut self, at: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 6);
        self.put(n);
        for i in 0..n {
            self.put32(at + 2 + 6 * i);
            self.put16(at + 6 + 6 * i);
        }
        self.put(n);
        for i in 0..n {
            let offset = self.u16(at + 6 + 6 * i);
            let there = self.place(at, offset);
            self.feature(there);
        }
    }

    /// Lookup.
    pub fn lookup(&mut self, at: u64, body: fn(&mut Spec, u64, u64)) {
        let kind = self.put16(at);
        let flags = self.put16(at + 2);
        self.require(flags & 0x00e0 == 0);
        let n = self.put16(at + 4);
        let n = self.list(n, 0, at + 6, 2);
        self.list16(at + 6, n);
        if self.wide > 0 {
            sym::assume((flags & 0x0010 != 0) == (sym::param(6) == 2));
        }
        if flags & 0x0010 != 0 {
            self.put(1);
            self.put16(at + 6 + 2 * n);
        } else {
            self.put(0);
        }
        self.put(n);
        for i in 0..n {
            let offset = self.u16(at + 6 + 2 * i);
            let there = self.place(at, offset);
            body(self, there, kind);
        }
    }

    /// LookupList.
    pub fn lookups(&mut self, at: u64, body: fn(&mut Spec, u64, u64)) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
        self.put(n);
        for i in 0..n {
            let offset = self.u16(at + 2 + 2 * i);
            let there = self.place(at, offset);
            self.lookup(there, body);
        }
    }

    /// FeatureVariations.
    pub fn feature_variations(&mut self, at: u64) {
        let major = self.put16(at);
        let minor = self.put16(at + 2);
        self.require(major == 1);
        self.require(minor == 0);
        self.put32(at + 4);
    }

    /// The header of GSUB and GPOS.
    pub fn directory(&mut self, at: u64, body: fn(&mut Spec, u64, u64)) {
        let major = self.put16(at);
        let minor = self.put16(at + 2);
        self.require(major == 1 && minor <= 1);
        if major != 1 || minor > 1 {
            return;
        }
        let scripts = self.put16(at + 4);
        let features = self.put16(at + 6);
        let lookups = self.put16(at + 8);
        let variations = if minor == 1 { self.u32(at + 10) } else { 0 };
        self.put(variations);
        if cfg!(feature = "directories") && scripts == 0 {
            self.nothing(3);
        } else {
            let there = self.place(at, scripts);
            self.scripts(there);
        }
        if cfg!(feature = "directories") && features == 0 {
            self.nothing(3);
        } else {
            let there = self.place(at, features);
            self.features(there);
        }
        if cfg!(feature = "directories") && lookups == 0 {
            self.nothing(3);
        } else {
            let there = self.place(at, lookups);
            self.lookups(there, body);
        }
        self.maybe(at, variations, Spec::feature_variations);
    }

    fn nothing(&mut self, count: u64) {
        for _ in 0..count {
            self.put(0);
        }
    }

    // ---- GSUB

    pub fn substitution(&mut self, at: u64, kind: u64) {
        match kind {
            1 => self.single_substitution(at),
            2 => self.multiple_substitution(at),
            3 => self.alternate_substitution(at),
            4 => self.ligature_substitution(at),
            5 => {
                self.put(5);
                self.context(at);
            }
            6 => {
                self.put(6);
                self.chained_context(at);
            }
            7 => {
                self.put(7);
                self.extension(at);
            }
            8 => self.reverse_substitution(at),
            _ => self.fail(),
        }
    }

    /// ExtensionSubst and ExtensionPos.
    pub fn extension(&mut self, at: u64) {
        let format = self.put16(at);
        self.require(format == 1);
        self.put16(at + 2);
        self.put32(at + 4);
    }

    fn single_substitution(&mut self, at: u64) {
        self.put(1);
        let format = self.u16(at);
        match self.format(format, 2) {
            1 => {
                self.put(1);
                self.put(format);
                let coverage = self.put16(at + 2);
                self.put16(at + 4);
                let there = self.place(at, coverage);
                self.coverage(there);
            }
            2 => {
                self.put(2);
                self.put(format);
                let coverage = self.put16(at + 2);
                let n = self.put16(at + 4);
                let n = self.list(n, 0, at + 6, 2);
                self.list16(at + 6, n);
                let there = self.place(at, coverage);
                self.coverage(there);
            }
            _ => {}
        }
    }

    fn glyph_list(&mut self, at: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
    }

    fn multiple_substitution(&mut self, at: u64) {
        self.put(2);
        self.sets(at, Spec::glyph_list);
    }

    fn alternate_substitution(&mut self, at: u64) {
        self.put(3);
        self.sets(at, Spec::glyph_list);
    }

    fn ligature_substitution(&mut self, at: u64) {
        self.put(4);
        self.sets(at, Spec::ligatures);
    }

    fn sets(&mut self, at: u64, body: fn(&mut Spec, u64)) {
        let format = self.put16(at);
        self.require(format == 1);
        let coverage = self.put16(at + 2);
        let n = self.put16(at + 4);
        let n = self.list(n, 0, at + 6, 2);
        self.list16(at + 6, n);
        let there = self.place(at, coverage);
        self.coverage(there);
        self.jump16(at, at + 6, n, body);
    }

    fn ligature(&mut self, at: u64) {
        self.put16(at);
        let n = self.put16(at + 2);
        self.require(n != 0);
        let n = self.list(n, 1, at + 4, 2);
        if n == 0 {
            return;
        }
        self.list16(at + 4, n - 1);
    }

    fn ligatures(&mut self, at: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
        self.jump16(at, at + 2, n, Spec::ligature);
    }

    fn reverse_substitution(&mut self, at: u64) {
        self.put(8);
        let format = self.put16(at);
        self.require(format == 1);
        let coverage = self.put16(at + 2);
        let one = at + 4;
        let n1 = self.put16(one);
        let n1 = self.list(n1, 0, one + 2, 2);
        self.list16(one + 2, n1);
        let two = one + 2 + 2 * n1;
        let n2 = self.put16(two);
        let n2 = self.list(n2, 0, two + 2, 2);
        self.list16(two + 2, n2);
        let three = two + 2 + 2 * n2;
        let n3 = self.put16(three);
        let n3 = self.list(n3, 0, three + 2, 2);
        self.list16(three + 2, n3);
        let there = self.place(at, coverage);
        self.coverage(there);
        self.jump16(at, one + 2, n1, Spec::coverage);
        self.jump16(at, two + 2, n2, Spec::coverage);
    }

    // ---- GPOS

    pub fn positioning(&mut self, at: u64, kind: u64) {
        match kind {
            1 => self.single_adjustment(at),
            2 => self.pair_adjustment(at),
            3 => self.cursive_attachment(at),
            4 => self.mark_attachment(at, 4, Spec::bases),
            5 => self.mark_attachment(at, 5, Spec::ligature_anchors),
            6 => self.mark_attachment(at, 6, Spec::bases),
            7 => {
                self.put(7);
                self.context(at);
            }
            8 => {
                self.put(8);
                self.chained_context(at);
            }
            9 => {
                self.put(9);
                self.extension(at);
            }
            _ => self.fail(),
        }
    }

    pub fn value_flags(&mut self, at: u64) -> u64 {
        let flags = self.put16(at);
        self.require(flags & 0xff00 == 0);
        if flags & 0xff00 != 0 {
            // Nothing else is interpreted.
            return 0;
        }
        let mut value = 0;
        for i in 0..8 {
            if self.flags == 0 {
                break;
            }
            if flags & (1 << i) != 0 {
                value |= 1 << i;
                self.flags -= 1;
            }
        }
        sym::assume(flags == value);
        value
    }

    /// ValueRecord.
    pub fn value(&mut self, base: u64, at: u64, flags: u64) -> u64 {
        let mut next = at;
        for i in 0..8 {
            if flags & (1 << i) != 0 {
                self.put(1);
                self.put16(next);
                next += 2;
            } else {
                self.put(0);
            }
        }
        let mut next = at;
        for i in 0..8 {
            if flags & (1 << i) != 0 {
                if i >= 4 {
                    let offset = self.u16(next);
                    self.maybe(base, offset, Spec::correction);
                }
                next += 2;
            } else if i >= 4 {
                self.put(0);
            }
        }
        next
    }

    pub fn value_maybe(&mut self, base: u64, at: u64, flags: u64) -> u64 {
        if flags > 0 {
            self.put(1);
            self.value(base, at, flags)
        } else {
            self.put(0);
            at
        }
    }

    fn single_adjustment(&mut self, at: u64) {
        self.put(1);
        let format = self.u16(at);
        match self.format(format, 2) {
            1 => {
                self.put(1);
                self.put(format);
                let coverage = self.put16(at + 2);
                let flags = self.value_flags(at + 4);
                self.value(at, at + 6, flags);
                let there = self.place(at, coverage);
                self.coverage(there);
            }
            2 => {
                self.put(2);
                self.put(format);
                let coverage = self.put16(at + 2);
                let flags = self.value_flags(at + 4);
                let n = self.put16(at + 6);
                let n = self.list(n, 0, at + 8, 2 * flags.count_ones() as u64);
                self.put(n);
                let mut next = at + 8;
                for _ in 0..n {
                    next = self.value(at, next, flags);
                }
                let there = self.place(at, coverage);
                self.coverage(there);
            }
            _ => {}
        }
    }

    fn pair_adjustment(&mut self, at: u64) {
        self.put(2);
        let format = self.u16(at);
        match self.format(format, 2) {
            1 => {
                self.put(1);
                self.put(format);
                let coverage = self.put16(at + 2);
                let one = self.value_flags(at + 4);
                let two = self.value_flags(at + 6);
                let n = self.put16(at + 8);
                let n = self.list(n, 0, at + 10, 2);
                self.list16(at + 10, n);
                let there = self.place(at, coverage);
                self.coverage(there);
                self.put(n);
                for i in 0..n {
                    // PairSet
                    let offset = self.u16(at + 10 + 2 * i);
                    let set = self.place(at, offset);
                    let m = self.put16(set);
                    let m = self.list(
                        m,
                        0,
                        set + 2,
                        2 + 2 * (one.count_ones() + two.count_ones()) as u64,
                    );
                    self.put(m);
                    let mut next = set + 2;
                    for _ in 0..m {
                        self.put16(next);
                        next = self.value_maybe(set, next + 2, one);
                        next = self.value_maybe(set, next, two);
                    }
                }
            }
            2 => {
                self.put(2);
                self.put(format);
                let coverage = self.put16(at + 2);
                let one = self.value_flags(at + 4);
                let two = self.value_flags(at + 6);
                let class1 = self.put16(at + 8);
                let class2 = self.put16(at + 10);
                let n = self.put16(at + 12);
                let m = self.put16(at + 14);
                let size = 2 * (one.count_ones() + two.count_ones()) as u64;
                if self.long {
                    // Otherwise, there is nothing to read.
                    sym::assume(n > 0);
                }
                let m = self.list(m, 0, at + 16, size);
                let n = self.list(n, 0, at + 16, m * size);
                self.put(n);
                let mut next = at + 16;
                for _ in 0..n {
                    self.put(m);
                    for _ in 0..m {
                        next = self.value_maybe(at, next, one);
                        next = self.value_maybe(at, next, two);
                    }
                }
                let there = self.place(at, coverage);
                self.coverage(there);
                let there = self.place(at, class1);
                self.class(there);
                let there = self.place(at, class2);
                self.class(there);
            }
            _ => {}
        }
    }

    pub fn anchor(&mut self, at: u64) {
        let format = self.u16(at);
        match self.format(format, 3) {
            1 => {
                self.put(1);
                self.put(format);
                self.put16(at + 2);
                self.put16(at + 4);
            }
            2 => {
                self.put(2);
                self.put(format);
                self.put16(at + 2);
                self.put16(at + 4);
                self.put16(at + 6);
            }
            3 => {
                self.put(3);
                self.put(format);
                self.put16(at + 2);
                self.put16(at + 4);
                let x = self.put16(at + 6);
                let y = self.put16(at + 8);
                self.maybe(at, x, Spec::correction);
                self.maybe(at, y, Spec::correction);
            }
            _ => {}
        }
    }

    fn cursive_attachment(&mut self, at: u64) {
        self.put(3);
        let format = self.put16(at);
        self.require(format == 1);
        let coverage = self.put16(at + 2);
        let n = self.put16(at + 4);
        let n = self.list(n, 0, at + 6, 4);
        self.put(n);
        for i in 0..n {
            let start = self.put16(at + 6 + 4 * i);
            let end = self.put16(at + 8 + 4 * i);
            self.maybe(at, start, Spec::anchor);
            self.maybe(at, end, Spec::anchor);
        }
        let there = self.place(at, coverage);
        self.coverage(there);
    }

    fn mark_attachment(&mut self, at: u64, kind: u64, body: fn(&mut Spec, u64, u64)) {
        self.put(kind);
        let format = self.put16(at);
        self.require(format == 1);
        let coverage1 = self.put16(at + 2);
        let coverage2 = self.put16(at + 4);
        let classes = self.put16(at + 6);
        let marks = self.put16(at + 8);
        let bases = self.put16(at + 10);
        let classes = self.count(classes);
        let there = self.place(at, coverage1);
        self.coverage(there);
        let there = self.place(at, coverage2);
        self.coverage(there);
        let there = self.place(at, marks);
        self.marks(there);
        let there = self.place(at, bases);
        body(self, there, classes);
    }

    /// MarkArray.
    fn marks(&mut self, at: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 4);
        self.put(n);
        for i in 0..n {
            self.put16(at + 2 + 4 * i);
            let offset = self.put16(at + 4 + 4 * i);
            if cfg!(feature = "marks") && offset == 0 {
                // An anchor at the origin.
                self.put(1);
                self.nothing(3);
            } else {
                let there = self.place(at, offset);
                self.anchor(there);
            }
        }
    }

    fn anchors(&mut self, base: u64, at: u64, classes: u64) {
        self.list16(at, classes);
        self.jump16_maybe(base, at, classes, Spec::anchor);
    }

    /// BaseArray and Mark2Array.
    fn bases(&mut self, at: u64, classes: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2 * classes);
        self.put(n);
        for i in 0..n {
            self.anchors(at, at + 2 + 2 * classes * i, classes);
        }
    }

    /// LigatureArray.
    fn ligature_anchors(&mut self, at: u64, classes: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
        self.put(n);
        for i in 0..n {
            let offset = self.u16(at + 2 + 2 * i);
            // LigatureAttach has the same structure as BaseArray.
            let there = self.place(at, offset);
            self.bases(there, classes);
        }
    }

    // ---- GDEF

    pub fn definition(&mut self, at: u64) {
        let version = self.u32(at);
        let one = version == 0x00010000;
        let two = version == 0x00010002;
        let three = version == 0x00010003;
        self.require(one || two || three);
        let minor = if one {
            0
        } else if two {
            2
        } else if three {
            3
        } else {
            return;
        };
        self.put(minor);
        self.put16(at);
        self.put16(at + 2);
        let classes = self.put16(at + 4);
        let attachments = self.put16(at + 6);
        let ligatures = self.put16(at + 8);
        let mark_classes = self.put16(at + 10);
        let marks = if minor >= 2 { self.put16(at + 12) } else { 0 };
        let variations = if minor >= 3 { self.put32(at + 14) } else { 0 };
        self.maybe(at, classes, Spec::class);
        self.maybe(at, attachments, Spec::attachments);
        self.maybe(at, ligatures, Spec::ligature_carets);
        self.maybe(at, mark_classes, Spec::class);
        self.maybe(at, marks, Spec::mark_sets);
        self.maybe(at, variations, Spec::store);
    }

    /// AttachList.
    pub fn attachments(&mut self, at: u64) {
        let coverage = self.put16(at);
        let n = self.put16(at + 2);
        let n = self.list(n, 0, at + 4, 2);
        self.list16(at + 4, n);
        let there = self.place(at, coverage);
        self.coverage(there);
        self.jump16(at, at + 4, n, Spec::glyph_list);
    }

    /// LigCaretList.
    pub fn ligature_carets(&mut self, at: u64) {
        let coverage = self.put16(at);
        let n = self.put16(at + 2);
        let n = self.list(n, 0, at + 4, 2);
        self.list16(at + 4, n);
        let there = self.place(at, coverage);
        self.coverage(there);
        self.jump16(at, at + 4, n, Spec::carets);
    }

    /// LigGlyph.
    fn carets(&mut self, at: u64) {
        let n = self.put16(at);
        let n = self.list(n, 0, at + 2, 2);
        self.list16(at + 2, n);
        self.jump16(at, at + 2, n, Spec::caret);
    }

    /// CaretValue.
    pub fn caret(&mut self, at: u64) {
        let format = self.u16(at);
        match self.format(format, 3) {
            1 | 2 => {
                self.put(format);
                self.put(format);
                self.put16(at + 2);
            }
            3 => {
                self.put(3);
                self.put(format);
                self.put16(at + 2);
                let offset = self.put16(at + 4);
                let there = self.place(at, offset);
                self.correction(there);
            }
            _ => {}
        }
    }

    /// MarkGlyphSets.
    pub fn mark_sets(&mut self, at: u64) {
        let format = self.put16(at);
        self.require(format == 1);
        let n = self.put16(at + 2);
        let n = self.list(n, 0, at + 4, 4);
        self.list32(at + 4, n);
        self.put(n);
        for i in 0..n {
            let offset = self.u32(at + 4 + 4 * i);
            let there = self.place(at, offset);
            self.coverage(there);
        }
    }

    /// ItemVariationStore.
    pub fn store(&mut self, at: u64) {
        let format = self.put16(at);
        self.require(format == 1);
        self.put32(at + 2);
        let n = self.put16(at + 6);
        let n = self.list(n, 0, at + 8, 4);
        self.list32(at + 8, n);
        self.put(n);
        for i in 0..n {
            let offset = self.u32(at + 8 + 4 * i);
            let there = self.place(at, offset);
            self.item_data(there);
        }
    }

    /// ItemVariationData.
    pub fn item_data(&mut self, at: u64) {
        let items = self.put16(at);
        let shorts = self.put16(at + 2);
        let regions = self.put16(at + 4);
        let items = self.count(items);
        let regions = self.list(regions, 0, at + 6, 2);
        self.list16(at + 6, regions);
        let size = if items == 0 {
            // The number of 16-bit deltas is not important.
            0
        } else {
            let shorts = self.count(shorts);
            items * (shorts + regions)
        };
        self.put(size);
        for i in 0..size {
            let value = self.u8(at + 6 + 2 * regions + i);
            self.put(value);
        }
    }

    // ---- CPAL

    pub fn palettes(&mut self, at: u64) {
        let version = self.u16(at);
        self.require(version <= 1);
        if version > 1 {
            return;
        }
        self.put(version);
        self.put(version);
        let entries = self.put16(at + 2);
        let n = self.put16(at + 4);
        let m = self.put16(at + 6);
        let offset = self.put32(at + 8);
        let there = self.place(at, offset);
        let most = m;
        let n = self.list(n, 0, at + 12, 2);
        let m = self.list(m, 0, there, 4);
        self.list16(at + 12, n);
        for i in 0..n {
            let first = self.u16(at + 12 + 2 * i);
            self.require(first + entries <= m);
            if self.over {
                // The colors are what is missing.
                sym::assume(first + entries <= most);
            }
        }
        self.put(m);
        for i in 0..m {
            for j in 0..4 {
                let value = self.u8(there + 4 * i + j);
                self.put(value);
            }
        }
    }

    // ---- fvar

    pub fn font_variations(&mut self, at: u64) {
        let major = self.put16(at);
        let minor = self.put16(at + 2);
        let offset = self.put16(at + 4);
        let reserved = self.put16(at + 6);
        let axes = self.put16(at + 8);
        let axis_size = self.put16(at + 10);
        let instances = self.put16(at + 12);
        let instance_size = self.put16(at + 14);
        self.require(major == 1);
        self.require(minor == 0);
        self.require(reserved == 2);
        if self.long {
            // Otherwise, they never end.
            sym::assume(axis_size == 20);
            sym::assume(instance_size == 4 * axes + 6);
        }
        let there = self.place(at, offset);
        let axes = self.list(axes, 0, there, 20);
        let instances = self.list(instances, 0, there + 20 * axes, 4 * axes + 6);
        if self.wide > 0 {
            // There is nothing else to vary.
            sym::assume(axis_size == 20);
            sym::assume(instance_size == 4 * axes + 6);
        }
        self.put(axes);
        for i in 0..axes {
            let record = there + i * axis_size;
            self.put32(record);
            self.put32(record + 4);
            self.put32(record + 8);
            self.put32(record + 12);
            let flags = self.put16(record + 16);
            self.require(flags & 0xfffe == 0);
            if self.over {
                // The instances are what is missing.
                sym::assume(flags & 0xfffe == 0);
            }
            let name = self.put16(record + 18);
            self.plain(name);
        }
        self.put(instances);
        for i in 0..instances {
            let record = there + axes * axis_size + i * instance_size;
            let name = self.put16(record);
            self.plain(name);
            let flags = self.put16(record + 2);
            self.require(flags == 0);
            self.list32(record + 4, axes);
            // The name is optional.
            let name = if instance_size >= 4 * axes + 6 {
                self.u16(record + 4 + 4 * axes)
            } else {
                0xffff
            };
            self.put(name);
            self.plain(name);
        }
    }

    /// A name that is of no interest in long lists.
    fn plain(&mut self, name: u64) {
        if self.wide > 0 {
            sym::assume(name == 256);
        }
    }

    // ---- The offset table

    pub fn offsets(&mut self, at: u64) {
        let version = self.put32(at);
        self.require(
            version == 0x00010000
                || version == 0x4f54544f
                || version == 0x74727565
                || version == 0x74797031,
        );
        let n = self.put16(at + 4);
        self.put16(at + 6);
        self.put16(at + 8);
        self.put16(at + 10);
        let n = self.list(n, 0, at + 12, 16);
        self.put(n);
        for i in 0..n {
            for j in 0..4 {
                self.put32(at + 12 + 16 * i + 4 * j);
            }
        }
    }
}
