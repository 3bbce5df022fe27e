//! C20: the cases of the other properties under AddressSanitizer and Miri; only memory verdicts count.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "the case is non-trivial by the rule of the property it belongs to",
        phases: |t| {
            vec![
                ph("cases of fourteen properties, AddressSanitizer", Exe::Asan, 0, n(t, 60_000)),
                ph("small cases of fourteen properties, Miri", Exe::Miri, 0, n(t, 400)),
            ]
        },
        enumerate: no_enum,
        gen: |r, phase, _| mix::generate(r, phase == 1, (3, 4)),
        run: mix::run,
        describe: mix::describe,
    }
}
