//! What the sessions of each property are like.
use crate::gen::Prof;

const BASE: Prof = Prof {
    name: "",
    seq: 0,
    big: 30,
    depth: 3,
    width: 4,
    long: 8,
    odd: 10,
    deep: 0,
    nums: false,
    rx: false,
    docs: 2,
    segs: 3,
    desc: 15,
    multi: 25,
    sel: [35, 15, 20, 15, 15],
    hit: 75,
    huge: 5,
    fdepth: 2,
    logic: [25, 10, 10, 20, 30, 5],
    opnd: [45, 45, 10],
    custom: 0,
    misfit: 0,
    blank: 3,
    esc: 10,
    mutate: 0,
    nq: 12,
    ops: &[("q", 100)],
};

pub fn profile(name: &str) -> Option<Prof> {
    // only large documents and texts
    if let Some(n) = name.strip_suffix('+') {
        return profile(n).map(|p| Prof { big: 1000, ..p });
    }
    Some(match name {
        "C01" => Prof { name: "C01", desc: 0, sel: [45, 20, 35, 0, 0], segs: 5, long: 15, odd: 15, ops: &[("q", 100), ("l", 15)], ..BASE },
        "C02" => Prof {
            name: "C02",
            desc: 60,
            deep: 8,
            depth: 4,
            width: 3,
            sel: [30, 25, 20, 10, 15],
            fdepth: 1,
            ops: &[("q", 100), ("l", 15)],
            ..BASE
        },
        "C03" => Prof {
            name: "C03",
            desc: 8,
            sel: [8, 8, 34, 40, 10],
            segs: 2,
            width: 6,
            long: 25,
            huge: 22,
            hit: 60,
            logic: [5, 2, 2, 30, 55, 6],
            opnd: [25, 60, 15],
            fdepth: 1,
            ops: &[("q", 100), ("l", 15)],
            ..BASE
        },
        "C04" => Prof {
            name: "C04",
            desc: 8,
            sel: [15, 10, 8, 5, 62],
            segs: 2,
            logic: [40, 15, 12, 18, 13, 2],
            hit: 80,
            ops: &[("q", 100), ("l", 25)],
            ..BASE
        },
        "C05" => Prof {
            name: "C05",
            desc: 5,
            sel: [10, 10, 10, 0, 70],
            segs: 2,
            fdepth: 1,
            nums: true,
            odd: 20,
            logic: [8, 4, 4, 0, 84, 0],
            opnd: [40, 50, 10],
            docs: 2,
            nq: 20,
            ..BASE
        },
        "C06" => Prof { name: "C06", odd: 20, desc: 25, deep: 4, fdepth: 2, ops: &[("l", 100), ("e", 30)], ..BASE },
        "C07" => Prof { name: "C07", odd: 70, desc: 30, deep: 4, fdepth: 1, nq: 6, ops: &[("t", 100)], ..BASE },
        "C08" => Prof { name: "C08", blank: 20, mutate: 45, esc: 20, nq: 16, ops: &[("q", 50)], custom: 15, misfit: 2, ..BASE },
        "C09" => Prof { name: "C09", blank: 12, mutate: 80, esc: 25, odd: 40, nq: 22, docs: 1, depth: 2, misfit: 6, custom: 10, ops: &[("all", 0)], ..BASE },
        "C10" => Prof {
            name: "C10",
            blank: 4,
            misfit: 32,
            custom: 50,
            sel: [10, 5, 5, 5, 75],
            segs: 1,
            logic: [8, 6, 4, 4, 28, 50],
            opnd: [15, 15, 70],
            nq: 24,
            docs: 1,
            depth: 2,
            ops: &[("q", 15)],
            ..BASE
        },
        "C11" => Prof {
            name: "C11",
            sel: [12, 12, 8, 5, 63],
            segs: 2,
            desc: 15,
            odd: 25,
            long: 15,
            logic: [5, 3, 3, 2, 87, 0],
            opnd: [40, 10, 50],
            nq: 14,
            fdepth: 2,
            ..BASE
        },
        "C12" => Prof {
            name: "C12",
            rx: true,
            sel: [8, 8, 6, 0, 78],
            segs: 2,
            desc: 5,
            logic: [6, 6, 3, 0, 0, 85],
            nq: 18,
            fdepth: 1,
            width: 6,
            odd: 0,
            esc: 15,
            ..BASE
        },
        "C13" => Prof {
            name: "C13",
            custom: 88,
            sel: [12, 10, 8, 5, 65],
            segs: 2,
            logic: [10, 8, 4, 4, 40, 34],
            opnd: [20, 20, 60],
            nq: 14,
            fdepth: 2,
            ops: &[("q", 100), ("l", 10)],
            ..BASE
        },
        "C14" => Prof { name: "C14", odd: 45, esc: 30, blank: 6, custom: 25, nums: true, desc: 20, logic: [25, 18, 14, 14, 20, 9], opnd: [40, 35, 25], nq: 10, ops: &[("q", 40), ("d", 100)], ..BASE },
        "C15" => Prof { name: "C15", desc: 25, multi: 40, fdepth: 1, odd: 10, nq: 6, ops: &[("a", 60), ("i", 100)], ..BASE },
        "C16" => Prof { name: "C16", desc: 45, multi: 55, fdepth: 1, odd: 30, long: 15, segs: 4, nq: 10, ops: &[("u", 100), ("e", 15)], ..BASE },
        "C17" => Prof { name: "C17", desc: 20, nq: 60, sel: [20, 12, 12, 10, 46], rx: false, logic: [15, 8, 8, 10, 35, 24], opnd: [35, 40, 25], custom: 40, depth: 2, ops: &[], ..BASE },
        "C18" => Prof { name: "C18", odd: 75, esc: 55, blank: 2, mutate: 40, sel: [70, 5, 5, 0, 20], segs: 2, desc: 5, logic: [5, 2, 2, 10, 80, 1], opnd: [60, 35, 5], fdepth: 1, nq: 16, ops: &[("q", 80)], ..BASE },
        "C19" => Prof { name: "C19", nums: true, blank: 2, mutate: 40, sel: [5, 5, 25, 20, 45], huge: 20, segs: 2, desc: 0, logic: [4, 2, 2, 5, 86, 1], opnd: [65, 33, 2], fdepth: 1, nq: 18, width: 6, ops: &[("q", 80)], ..BASE },
        "C21" => Prof { name: "C21", odd: 40, desc: 35, deep: 3, long: 12, fdepth: 1, nq: 6, ops: &[("p", 100)], ..BASE },
        "C22" => Prof { name: "C22", desc: 12, multi: 15, odd: 20, huge: 3, esc: 10, nums: true, custom: 15, logic: [20, 15, 10, 12, 35, 8], opnd: [45, 40, 15], nq: 6, docs: 1, ops: &[], ..BASE },
        // the same few regular expressions, in match and in search
        "C17r" => Prof { name: "C17", rx: true, desc: 20, nq: 60, sel: [8, 12, 6, 6, 68], segs: 2, width: 5, odd: 0, logic: [5, 5, 3, 0, 0, 87], depth: 2, fdepth: 1, ops: &[], ..BASE },
        _ => return None,
    })
}
