//! C24: small cases of the other properties under Miri with the Tree Borrows model, on the default storage.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "the case is non-trivial by the rule of the property it belongs to",
        phases: |t| vec![ph("small cases of fourteen properties, Miri with Tree Borrows", Exe::MiriTree, 0, n(t, 480))],
        enumerate: no_enum,
        gen: |r, _, _| {
            let mut c = mix::generate(r, true, (1, 1));
            if mix::is_iter_mut_kept(&c) {
                // known finding: items obtained from iter_mut cannot be used once it is advanced
                c.params[gen::P_EXTRA] &= 7;
                c.recs.retain(|r| !c03::by_calls(r));
            }
            if c.params[0] == 0 {
                // the default storage only
                c.params[0] = ONLY_BOXED;
            }
            c
        },
        run: mix::run,
        describe: mix::describe,
    }
}
