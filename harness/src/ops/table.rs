//! What a table answers, for tables made cell by cell and for parsed ones.
use crate::text::{arr, num, st};
use crate::Outcome;
use serde_json::{json, Value};
use vimwiki::*;

fn kind(c: &Cell<'_>) -> &'static str {
    match c {
        Cell::Content(_) => "cell",
        Cell::Span(CellSpan::FromLeft) => "left",
        Cell::Span(CellSpan::FromAbove) => "up",
        Cell::Align(x) => align(*x),
    }
}
fn align(x: ColumnAlign) -> &'static str {
    match x {
        ColumnAlign::None => "none",
        ColumnAlign::Left => "lft",
        ColumnAlign::Center => "ctr",
        ColumnAlign::Right => "rgt",
    }
}
fn make(k: &str, row: usize, col: usize) -> Cell<'static> {
    match k {
        "cell" => Cell::Content(InlineElementContainer::new(vec![Located::from(InlineElement::Text(
            vimwiki::Text::from(format!("{},{}", row, col)),
        ))])),
        "left" => Cell::Span(CellSpan::FromLeft),
        "up" => Cell::Span(CellSpan::FromAbove),
        "none" => Cell::Align(ColumnAlign::None),
        "lft" => Cell::Align(ColumnAlign::Left),
        "ctr" => Cell::Align(ColumnAlign::Center),
        "rgt" => Cell::Align(ColumnAlign::Right),
        x => panic!("cell kind {}", x),
    }
}
type P = (usize, usize);
fn positions(v: &Value) -> Vec<P> {
    arr(v).iter().map(|p| (num(&arr(p)[0]), num(&arr(p)[1]))).collect()
}

/// a walk along `want`: each cell once, its position announced, the rest counted
fn walk<T, I: CellIter<T>>(
    what: &str,
    t: &Table<'_>,
    mut it: I,
    want: &[P],
    mode: usize,
    content: impl Fn(&I) -> bool,
    is: impl Fn(&T, &Located<Cell<'_>>) -> bool,
) -> Result<(), Value> {
    let bad = |i: usize, why: Value| Err(json!({"walk": what, "step": i, "why": why}));
    for (i, p) in want.iter().enumerate() {
        let left = want.len() - i;
        if it.size_hint() != (left, Some(left)) {
            return bad(i, json!({"size_hint": format!("{:?}", it.size_hint()), "left": left}));
        }
        let c = want[i..].iter().any(|(r, c)| t.get_cell(*r, *c).unwrap().is_content());
        if content(&it) != c {
            return bad(i, json!({"has_content": !c}));
        }
        let cell = t.get_cell(p.0, p.1).unwrap();
        let ok = if (i + mode) % 2 == 0 {
            let at = (it.row(), it.col());
            if at != *p {
                return bad(i, json!({"announced": at, "expected": p}));
            }
            it.next().map(|x| is(&x, cell))
        } else {
            match it.next_with_pos() {
                Some((q, x)) => {
                    if (q.row, q.col) != *p {
                        return bad(i, json!({"with_pos": (q.row, q.col), "expected": p}));
                    }
                    Some(is(&x, cell))
                }
                None => None,
            }
        };
        match ok {
            Some(true) => {}
            Some(false) => return bad(i, json!({"another cell than at": p})),
            None => return bad(i, json!({"nothing at": p})),
        }
    }
    for _ in 0..3 {
        if it.size_hint() != (0, Some(0)) {
            return bad(want.len(), json!({"size_hint": format!("{:?}", it.size_hint()), "left": 0}));
        }
        if content(&it) {
            return bad(want.len(), json!({"has_content": true}));
        }
        if it.next().is_some() {
            return bad(want.len(), json!("a cell too many"));
        }
    }
    Ok(())
}

macro_rules! same {
    ($what:expr, $a:expr, $e:expr) => {{
        let (a, e) = ($a, $e);
        if a != e {
            return Err(json!({"what": $what, "actual": format!("{:?}", a), "expected": format!("{:?}", e)}));
        }
    }};
}

/// the row iterators' indices
fn rows_of<'a, 'b: 'a>(
    what: &str,
    t: &'a Table<'b>,
    mut it: impl Iterator<Item = Row<'a, 'b>>,
    want: &[usize],
    byrow: &[Vec<P>],
    divs: &[bool],
    exact: bool,
) -> Result<(), Value> {
    for (i, r) in want.iter().enumerate() {
        let left = want.len() - i;
        let (lo, hi) = it.size_hint();
        if lo > left || hi.map_or(false, |x| x < left) || (exact && (lo != left || hi != Some(left))) {
            return Err(json!({"rows": what, "step": i, "size_hint": format!("{:?}", (lo, hi)), "left": left}));
        }
        match it.next() {
            None => return Err(json!({"rows": what, "missing": r})),
            Some(row) => {
                same!("divider row", row.is_divider_row(), divs[*r]);
                same!(format!("{}: row", what), CellIter::row(&row), *r);
                walk(&format!("{} row {}", what, r), t, row, &byrow[*r], i, |x| x.has_content(), |a, b| std::ptr::eq(*a, b))?;
            }
        }
    }
    same!(format!("{} end", what), it.size_hint().0, 0);
    if it.next().is_some() {
        return Err(json!({"rows": what, "why": "a row too many"}));
    }
    Ok(())
}

pub fn api(t: &Table<'_>, v: &Value) -> Result<(), Value> {
    let n = |k: &str| num(&v[k]);
    let cells = positions(&v["cells"]);
    let byrow: Vec<Vec<P>> = arr(&v["byrow"]).iter().map(positions).collect();
    let bycol: Vec<Vec<P>> = arr(&v["bycol"]).iter().map(positions).collect();
    let divs: Vec<bool> = arr(&v["divs"]).iter().map(|x| x.as_bool().unwrap()).collect();
    let nums = |k: &str| arr(&v[k]).iter().map(num).collect::<Vec<usize>>();
    same!("rows", t.row_cnt(), n("rows"));
    same!("columns", t.col_cnt(), n("cols"));
    same!("len", t.len(), n("len"));
    same!("empty", t.is_empty(), n("len") == 0);
    same!("data", t.as_data().len(), n("len"));
    for (p, k) in cells.iter().zip(arr(&v["kinds"])) {
        match t.get_cell(p.0, p.1) {
            None => return Err(json!({"missing": p})),
            Some(c) => same!(format!("kind at {:?}", p), kind(c.as_inner()), st(k)),
        }
    }
    let div = v["div"].as_i64().unwrap();
    same!("divider", t.get_divider_row_index().map(|x| x as i64).unwrap_or(-1), div);
    same!("has divider", t.has_divider_row(), div >= 0);
    let (head, body) = (nums("head"), nums("body"));
    same!("has header", t.has_header_rows(), !head.is_empty());
    same!("has body", t.has_body_rows(), !body.is_empty());
    let is_content = |rs: &[usize]| rs.iter().any(|r| byrow[*r].iter().any(|p| t.get_cell(p.0, p.1).unwrap().is_content()));
    same!("header content", t.header_rows().has_content(), is_content(&head));
    same!("body content", t.body_rows().has_content(), is_content(&body));
    let all: Vec<usize> = (0..n("rows")).collect();
    same!("rows content", t.rows().has_content(), is_content(&all));
    rows_of("rows", t, t.rows(), &all, &byrow, &divs, true)?;
    rows_of("header", t, t.header_rows(), &head, &byrow, &divs, true)?;
    rows_of("body", t, t.body_rows(), &body, &byrow, &divs, true)?;
    for r in 0..byrow.len() {
        same!("divider row", t.row(r).is_divider_row(), divs[r]);
        walk(&format!("row {}", r), t, t.row(r), &byrow[r], 1, |x| x.has_content(), |a, b| std::ptr::eq(*a, b))?;
        let own = t.clone().into_row(r);
        same!("divider row, owned", own.is_divider_row(), divs[r]);
        walk(&format!("into_row {}", r), t, own, &byrow[r], r, |x| x.has_content(), |a, b| a.strict_eq(b))?;
    }
    let mut it = t.columns();
    for c in 0..n("cols") {
        same!("columns left", it.size_hint(), (n("cols") - c, Some(n("cols") - c)));
        match it.next() {
            None => return Err(json!({"columns": "missing", "at": c})),
            Some(x) => {
                same!("columns: column", CellIter::col(&x), c);
                walk(&format!("columns {}", c), t, x, &bycol[c], 0, |x| x.has_content(), |a, b| std::ptr::eq(*a, b))?
            }
        }
    }
    same!("columns left", it.size_hint(), (0, Some(0)));
    if it.next().is_some() {
        return Err(json!({"columns": "one too many"}));
    }
    for c in 0..bycol.len() {
        same!(format!("alignment of {}", c), align(t.get_column_alignment(c)), st(&arr(&v["aligns"])[c]));
        walk(&format!("column {}", c), t, t.column(c), &bycol[c], 1, |x| x.has_content(), |a, b| std::ptr::eq(*a, b))?;
        walk(&format!("into_column {}", c), t, t.clone().into_column(c), &bycol[c], c, |x| x.has_content(), |a, b| a.strict_eq(b))?;
    }
    for mode in 0..2 {
        walk("cells", t, t.cells(), &cells, mode, |x| x.has_content(), |a, b| std::ptr::eq(*a, b))?;
        walk("into_cells", t, t.clone().into_cells(), &cells, mode, |x| x.has_content(), |a, b| a.strict_eq(b))?;
    }
    let z: Vec<P> = t.cells().zip_with_position().map(|(p, _)| (p.row, p.col)).collect();
    same!("zipped positions", z, cells.clone());
    let z: Vec<P> = t.clone().into_cells().zip_with_position().map(|(p, _)| (p.row, p.col)).collect();
    same!("zipped positions, owned", z, cells);
    for (r, row) in arr(&v["spans"]).iter().enumerate() {
        for (c, s) in arr(row).iter().enumerate() {
            same!(
                format!("spans of {},{}", r, c),
                (t.get_cell_rowspan(r, c), t.get_cell_colspan(r, c)),
                (num(&arr(s)[0]), num(&arr(s)[1]))
            );
        }
    }
    Ok(())
}

pub fn table(v: &Value, centered: bool) -> Outcome {
    let v = &v["api"];
    let mut cs: Vec<(CellPos, Located<Cell<'static>>)> = positions(&v["cells"])
        .iter()
        .zip(arr(&v["kinds"]))
        .map(|(p, k)| {
            (CellPos::new(p.0, p.1), Located::new(make(st(k), p.0, p.1), Region::new(p.0 * 10 + p.1, 1)))
        })
        .collect();
    cs.reverse();
    let n = cs.len();
    if n > 2 {
        cs.swap(0, n / 2);
    }
    let t = Table::new(cs, centered);
    if t.centered != centered {
        return Err(json!({"centered": t.centered}));
    }
    api(&t, v)?;
    api(&t.to_borrowed(), v)?;
    api(&t.clone().into_owned(), v)?;
    // as often as content cells
    let walked: usize = {
        let t = t.clone();
        t.into_children().len()
    };
    let want = arr(&v["kinds"]).iter().filter(|k| **k == "cell").count();
    if walked != want {
        return Err(json!({"children": walked, "expected": want}));
    }
    let mut tags = vec![];
    for (k, tag) in [("cell", "cell"), ("up", "up"), ("left", "left"), ("none", "align")].iter() {
        if arr(&v["kinds"]).iter().any(|x| x == k) {
            tags.push(*tag);
        }
    }
    if num(&v["len"]) < num(&v["rows"]) * num(&v["cols"]) {
        tags.push("hole");
    }
    if v["div"].as_i64().unwrap() > 0 {
        tags.push("header");
    }
    Ok(tags)
}
