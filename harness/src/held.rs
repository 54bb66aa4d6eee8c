//! C26: labels that are looked at while another clone changes them.
use crate::names::{build, Any, Spec, KINDS};
use crate::par::*;
use crate::rt::*;
use prometrics::label::{Label, Labels};

/// `n` labels with one-letter names in increasing order and one-character values, all arbitrary
fn some_labels(n: usize) -> Vec<(u8, u8)> {
    let mut v: Vec<(u8, u8)> = Vec::new();
    for _ in 0..n {
        let l = (letter("label"), sym(7, "label value") as u8);
        assume(v.last().map_or(true, |p| p.0 < l.0));
        v.push(l);
    }
    v
}
fn with_labels(kind: usize, labels: &[(u8, u8)]) -> Any {
    let texts: Vec<(String, String)> = labels.iter().map(|l| (text(l.0), text(l.1))).collect();
    let mut s = Spec { name: "n", ..Spec::default() };
    for (n, v) in &texts {
        s.labels.push((n, v));
    }
    build(kind, &s).unwrap()
}
fn kind() -> usize {
    let k = param("kind", KINDS);
    if k == KINDS {
        choose(KINDS, "kind")
    } else {
        k
    }
}
fn is(l: &Label, want: (u8, u8)) -> bool {
    let (n, v) = (l.name().as_bytes(), l.value().as_bytes());
    n.len() == 1 && v.len() == 1 && (n[0] == want.0) & (v[0] == want.1)
}
fn change(m: &mut Any, given: &[(u8, u8)]) {
    match choose(4, "change") {
        0 => {
            let ok = m.insert(&text(letter("new label")), &text(sym(7, "new value") as u8)).is_ok();
            check(ok, "a good label is accepted");
        }
        1 => m.remove(&text(letter("removed label"))),
        // surely one of the labels looked at
        2 if !given.is_empty() => m.remove(&text(given[choose(given.len(), "which")].0)),
        2 => m.remove("z"),
        _ => m.clear(),
    }
}
/// walks over the labels, with changes by another clone in between
fn walk(labels: &Labels, given: &[(u8, u8)], changes: usize, mut change: impl FnMut()) {
    let mut it = labels.iter();
    let mut held: Vec<&Label> = Vec::new();
    let mut left = changes;
    loop {
        while left > 0 && flag("a change comes now") {
            change();
            left -= 1;
            for (i, l) in held.iter().enumerate() {
                check(is(l, given[i]), "a label keeps its name and value while it is looked at");
            }
        }
        match it.next() {
            None => break,
            Some(l) => {
                let i = held.len();
                if i >= given.len() {
                    return check(false, "an iteration visits the labels from before the changes and no others");
                }
                check(is(l, given[i]), "an iteration visits the labels from before the changes, in order");
                held.push(l);
            }
        }
    }
    check(held.len() == given.len(), "an iteration visits all the labels from before the changes");
    for (i, l) in held.iter().enumerate() {
        check(is(l, given[i]), "a label keeps its name and value while it is looked at");
    }
    check(it.next().is_none(), "an iteration that has ended stays ended");
}
entry!(h_c26_iter {
    let given = some_labels(choose(param("labels", 2) + 1, "labels"));
    let m = with_labels(kind(), &given);
    let mut other = m.clone();
    walk(m.labels(), &given, param("changes", 2), || change(&mut other, &given));
    drop(other);
    cover("end");
});
// a label found by lookup, while other metrics change and come and go, also after earlier changes to this one
entry!(h_c26_get {
    let mut given = some_labels(choose(param("labels", 2) + 1, "labels"));
    let m = with_labels(kind(), &given);
    if flag("a change before") {
        let mut other = m.clone();
        other.insert("_", "+").unwrap();
        given.insert(0, (b'_', b'+'));
        if flag("two") && given.len() > 1 {
            other.remove(&text(given[1].0));
            given.remove(1);
        }
    }
    let name = letter("wanted");
    let l = m.labels().get(&text(name));
    let mut third = with_labels(kind(), &given);
    change(&mut third, &given);
    drop(third);
    let mut want = None;
    for g in &given {
        if g.0 == name {
            want = Some(*g);
        }
    }
    match (l, want) {
        (None, None) => cover("absent"),
        (Some(l), Some(w)) => {
            check(is(l, w), "a lookup finds the label of that name");
            cover("found");
        }
        _ => check(false, "a lookup finds the label of that name if there is one"),
    }
    cover("end");
});
// the same while another clone of the same metric changes its labels
entry!(h_c26_held {
    let given = some_labels(1 + choose(param("labels", 2), "labels"));
    let m = with_labels(kind(), &given);
    let mut other = m.clone();
    let i = choose(given.len(), "which");
    let l = if flag("by iteration") { m.labels().iter().nth(i) } else { m.labels().get(&text(given[i].0)) };
    change(&mut other, &given);
    match l {
        None => check(false, "a lookup finds the label of that name if there is one"),
        Some(l) => check(is(l, given[i]), "a label keeps its name and value while it is looked at"),
    }
    cover("end");
});
// another thread changes the labels during the iteration
entry!(h_c26_threads {
    let given = some_labels(choose(param("labels", 2) + 1, "labels"));
    let m = with_labels(kind(), &given);
    let changes = param("changes", 1);
    let mut other = m.clone();
    let (m, given) = (&m, &given);
    let mut tasks: Vec<Task> = Vec::new();
    tasks.push(Box::new(move || {
        for _ in 0..changes {
            set_before(0);
            update(0, || change(&mut other, given));
        }
    }));
    tasks.push(Box::new(move || {
        let untouched = started() == 0;
        let it = m.labels().iter();
        let mut held: Vec<(&Label, u8, u8)> = Vec::new();
        for l in it {
            let (n, v) = (l.name().as_bytes(), l.value().as_bytes());
            if n.len() != 1 || v.len() != 1 {
                return check(false, "an iteration visits labels as they were inserted");
            }
            held.push((l, n[0], v[0]));
            // the last one is also read while the iterator is still there
            for (l, n, v) in &held {
                check(is(l, (*n, *v)), "a label keeps its name and value while it is looked at");
            }
        }
        if untouched && started() == 0 {
            check(held.len() == given.len(), "an iteration visits all the labels from before the changes");
        }
    }));
    parallel(tasks);
    cover("end");
});
// C26: many labels, a change at every step of the iteration
entry!(h_c26_many {
    let n = param("labels", 12);
    let mut given: Vec<(u8, u8)> = (0..n).map(|i| (b'b' + 2 * i as u8 % 25, b'0' + i as u8)).collect();
    given.sort();
    given[n / 2].1 = sym(7, "label value") as u8;
    let m = with_labels(kind(), &given);
    let mut other = m.clone();
    let from = choose(4, "changes from");
    let how = choose(3, "changes");
    let new = letter("new label");
    let mut it = m.labels().iter();
    let mut held: Vec<&Label> = Vec::new();
    for step in 0.. {
        if step >= from {
            match (how + step) % 5 {
                0 | 3 => check(other.insert(&text(new), &text(b'0' + step as u8)).is_ok(), "a good label is accepted"),
                1 => other.remove(&text(given[step * 5 % n].0)),
                2 => check(other.insert(&text(given[step * 7 % n].0), "+").is_ok(), "a good label is accepted"),
                _ if how == 0 => other.clear(),
                _ => other.remove(&text(new)),
            }
            for (i, l) in held.iter().enumerate() {
                check(is(l, given[i]), "a label keeps its name and value while it is looked at");
            }
        }
        match it.next() {
            None => break,
            Some(l) => {
                if held.len() >= n {
                    return check(false, "an iteration visits the labels from before the changes and no others");
                }
                check(is(l, given[held.len()]), "an iteration visits the labels from before the changes, in order");
                held.push(l);
            }
        }
    }
    check(held.len() == n, "an iteration visits all the labels from before the changes");
    for (i, l) in held.iter().enumerate() {
        check(is(l, given[i]), "a label keeps its name and value while it is looked at");
    }
    cover("end");
});
