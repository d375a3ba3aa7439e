//! Tags, and looking records up by tags.

use opentype::layout::feature::{self, Feature};
use opentype::layout::language::{self, Language};
use opentype::layout::script::{self, Script};
use opentype::layout::{Features, Scripts};
use opentype::truetype::Tag;

use crate::registry::{FEATURES, LANGUAGES, SCRIPTS};
use crate::sym;

/// The position of a tag in a registry if present.
#[inline(never)]
fn search(registry: &[(&[u8; 4], &str, &str)], tag: &Tag) -> usize {
    let tag = u32::from_be_bytes(tag.0);
    let mut index = registry.len();
    for i in 0..registry.len() {
        // There is no branching.
        let same = (u32::from_be_bytes(*registry[i].0) == tag) as usize;
        index = same * i + (1 - same) * index;
    }
    sym::fix(index as u64) as usize
}

fn same(one: &str, other: &str) -> bool {
    let (one, other) = (one.as_bytes(), other.as_bytes());
    if one.len() != other.len() {
        return false;
    }
    let mut i = 0;
    while i < one.len() {
        if one[i] != other[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// The codes are those separated by commas.
fn enumerate(codes: &str, mut next: impl FnMut() -> Option<&'static str>) {
    let mut rest = codes.as_bytes();
    while !rest.is_empty() {
        let mut size = 0;
        while size < rest.len() && rest[size] != b',' {
            size += 1;
        }
        let code = next();
        sym::check(code.is_some());
        if let Some(code) = code {
            sym::check(same(code, unsafe { std::str::from_utf8_unchecked(&rest[..size]) }));
        }
        rest = if size < rest.len() { &rest[size + 2..] } else { &[] };
    }
    sym::check(next().is_none());
}

macro_rules! check(
    ($type:ident, $registry:ident $(, $language:ident)?) => ({
        let tag = arbitrary();
        // Possibly with a given initial
        sym::assume(sym::param(7) == 0 || tag.0[0] as u64 == sym::param(7));
        let value = $type::from_tag(&tag);
        let index = search($registry, &tag);
        // No information is lost.
        let back: Tag = value.into();
        sym::check(u32::from_be_bytes(back.0) == u32::from_be_bytes(tag.0));
        sym::trace(u32::from_be_bytes(back.0) as u64);
        if index < $registry.len() {
            sym::reach(1);
            let name = value.name();
            sym::check(name.is_some());
            if let Some(name) = name {
                sym::check(same(name, $registry[index].1));
                sym::trace(name.len() as u64);
            }
            sym::check(!matches!(value, $type::Other(_)));
        } else {
            sym::reach(2);
            sym::check(value.name().is_none());
            sym::check(matches!(value, $type::Other(_)));
        }
        $(
            let $language = ();
            let codes = if index < $registry.len() { $registry[index].2 } else { "" };
            let mut iterator = value.codes();
            enumerate(codes, || iterator.next());
        )?
    });
);

/// An arbitrary tag.
fn arbitrary() -> Tag {
    let mut tag = [0; 4];
    for byte in &mut tag {
        *byte = sym::var(8, 0, 255) as u8;
    }
    Tag(tag)
}

macro_rules! get(
    ($container:ident, $headers:ident, $records:ident, $header:expr, $record:expr, $type:ident) => ({
        let count = sym::fix(sym::var(64, sym::param(3), sym::param(1).max(sym::param(3)))) as usize;
        for _ in 0..count {
            $container.$headers.push($header);
            $container.$records.push($record);
        }
        let tag = arbitrary();
        let mut expected = count;
        let mut i = count;
        while i > 0 {
            i -= 1;
            if $container.$headers[i].tag.0 == tag.0 {
                expected = i;
            }
        }
        let expected = sym::fix(expected as u64) as usize;
        let result = if sym::param(7) == 0 {
            $container.get(tag)
        } else {
            // The known values are given by their tags.
            $container.get($type::from_tag(&tag))
        };
        sym::trace(result.is_some() as u64);
        sym::check(result.is_some() == (expected < count));
        if let Some(result) = result {
            sym::reach(1);
            sym::check(std::ptr::eq(result, &$container.$records[expected]));
        } else {
            sym::reach(2);
        }
        std::mem::forget($container);
    });
);

harnesses! {
    script_tags { check!(Script, SCRIPTS) }
    language_tags { check!(Language, LANGUAGES, _language) }
    feature_tags { check!(Feature, FEATURES) }
    script_get {
        let mut container = Scripts::default();
        get!(
            container, headers, records,
            script::Header { tag: arbitrary(), offset: 0 }, Default::default(), Script
        )
    }
    language_get {
        let mut container = script::Record::default();
        get!(
            container, language_headers, language_records,
            language::Header { tag: arbitrary(), offset: 0 }, Default::default(), Language
        )
    }
    feature_get {
        let mut container = Features::default();
        get!(
            container, headers, records,
            feature::Header { tag: arbitrary(), offset: 0 }, Default::default(), Feature
        )
    }
}
