//! The page the specification expects, in the canonical form of `actual`.
use crate::text::*;
use serde_json::{json, Map, Value};

fn descr(t: &Text, v: &Value) -> Value {
    let d = arr(v);
    if d.is_empty() {
        Value::Null
    } else if st(&d[0]) == "text" {
        json!({"text": t.sub(num(&d[1]), num(&d[2]))})
    } else {
        json!({"tr": link_data(t, &d[1], &d[2], &d[3])})
    }
}
pub fn props(t: &Text, v: &Value) -> Value {
    let mut m = Map::new();
    for p in arr(v) {
        let p = arr(p);
        m.insert(
            t.sub(num(&p[0]), num(&p[1])),
            Value::from(t.sub(num(&p[2]), num(&p[3]))),
        );
    }
    Value::Object(m)
}
fn anchor(uri: &str) -> Value {
    match uri.find('#') {
        None => Value::Null,
        Some(i) => Value::from(uri[i + 1..].split('#').map(unescape).collect::<Vec<_>>()),
    }
}
/// percent-decoding, independent of the implementation's
pub fn unescape(s: &str) -> String {
    let b = s.as_bytes();
    let hex = |c: u8| (c as char).to_digit(16);
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(x), Some(y)) = (hex(b[i + 1]), hex(b[i + 2])) {
                out.push((x * 16 + y) as u8);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).to_string()
}
/// the written target, up to URI normalisation: after an authority, no path is
/// the path /; an empty port is none
pub fn normal(u: &str) -> String {
    let scheme = u.find(':').filter(|i| {
        *i > 0 && u[..*i].chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c))
    });
    let s = scheme.map(|i| i + 1).unwrap_or(0);
    if !u[s..].starts_with("//") {
        return u.to_string();
    }
    let p = s + 2;
    let e = u[p..].find(|c| "/?#".contains(c)).map(|x| x + p).unwrap_or(u.len());
    let auth = &u[p..e];
    let auth = match auth.rfind(':') {
        Some(i) if auth[i + 1..].chars().all(|c| c.is_ascii_digit()) && !auth[i..].contains('@') => {
            match auth[i + 1..].parse::<u32>() {
                Ok(n) => format!("{}:{}", &auth[..i], n),
                Err(_) => auth[..i].to_string(),
            }
        }
        _ => auth.to_string(),
    };
    let slash = if u[e..].starts_with('/') { "" } else { "/" };
    format!("{}{}{}{}", &u[..p], auth, slash, &u[e..])
}
fn date(v: &Value) -> String {
    let d = arr(v);
    let y = num(&d[1]) as i32;
    let y = if d[0] == true { -y } else { y };
    chrono::NaiveDate::from_ymd_opt(y, num(&d[2]) as u32, num(&d[3]) as u32)
        .expect("date")
        .format("%Y-%m-%d")
        .to_string()
}
fn link_data(t: &Text, uri: &Value, d: &Value, p: &Value) -> Value {
    let u = t.rng(uri);
    json!({"uri": unescape(&normal(&u)), "anchor": anchor(&u), "descr": descr(t, d), "props": props(t, p)})
}

pub fn inlines(t: &Text, v: &Value) -> Value {
    Value::Array(arr(v).iter().map(|x| inline(t, x)).collect())
}
fn lines(t: &Text, v: &Value) -> Value {
    Value::Array(arr(v).iter().map(|x| Value::from(t.rng(x))).collect())
}

pub fn inline(t: &Text, v: &Value) -> Value {
    let v = arr(v);
    let k = st(&v[0]);
    let r = t.region(v);
    let sub = |i: usize, j: usize| t.sub(num(&v[i]), num(&v[j]));
    let nil = json!([]);
    match k {
        "t" => json!({"k":"t","r":r,"v":sub(1,2)}),
        "kw" => json!({"k":"kw","r":r,"v":v[4]}),
        "code" | "math" | "lc" => json!({"k":k,"r":r,"v":sub(4,5)}),
        "mlc" | "tags" => json!({"k":k,"r":r,"v":lines(t,&v[4])}),
        "b" | "i" | "s" | "sup" | "sub" => {
            json!({"k":k,"r":r,"c":inlines(t,&v[4])})
        }
        "wiki" | "tr" => {
            json!({"k":k,"r":r,"d":link_data(t,&v[4],&v[5],&v[6])})
        }
        "raw" => json!({"k":k,"r":r,"d":link_data(t,&v[4],&nil,&nil)}),
        "iwi" => {
            json!({"k":k,"r":r,"n":t.rng(&v[4]).parse::<u32>().unwrap().to_string(),
                   "d":link_data(t,&v[5],&v[6],&nil)})
        }
        "iwn" => json!({"k":k,"r":r,"n":t.rng(&v[4]),
                   "d":link_data(t,&v[5],&v[6],&nil)}),
        "diary" => {
            let a = if arr(&v[5]).is_empty() {
                Value::Null
            } else {
                let a = t.rng(&v[5]);
                if a.is_empty() { Value::Null } else { Value::from(unescape(&a)) }
            };
            json!({"k":k,"r":r,"n":date(&v[4]),"a":a,"descr":descr(t,&v[6])})
        }
        _ => panic!("inline kind {}", k),
    }
}

pub fn blocks(t: &Text, v: &Value) -> Value {
    Value::Array(arr(v).iter().map(|x| block(t, x)).collect())
}

pub fn block(t: &Text, v: &Value) -> Value {
    let v = arr(v);
    let k = st(&v[0]);
    if k == "stuck" {
        return json!({"k":"stuck","at":v[1]});
    }
    let r = t.region(v);
    let opt = |x: &Value| {
        if arr(x).is_empty() { Value::Null } else { Value::from(t.rng(x)) }
    };
    match k {
        "h" => json!({"k":k,"r":r,"level":v[4],"centered":v[5],"c":inlines(t,&v[6])}),
        "hr" => json!({"k":k,"r":r}),
        "ph" => {
            let value = if v[4] == "date" { Value::from(date(&v[6])) } else { opt(&v[6]) };
            json!({"k":k,"r":r,"kind":v[4],"name":opt(&v[5]),"value":value})
        }
        "bq" => json!({"k":k,"r":r,"lines":lines(t,&v[4])}),
        "code_block" => {
            json!({"k":k,"r":r,"lang":opt(&v[4]),"props":props(t,&v[5]),"lines":lines(t,&v[6])})
        }
        "math_block" => json!({"k":k,"r":r,"env":opt(&v[4]),"lines":lines(t,&v[5])}),
        "dl" => {
            let dlv = |x: &Value| {
                let x = arr(x);
                json!({"k":x[0],"r":t.region(x),"c":inlines(t,&x[4])})
            };
            let items: Vec<Value> = arr(&v[4])
                .iter()
                .map(|it| {
                    let it = arr(it);
                    json!({"term":dlv(&it[0]),
                       "defs":arr(&it[1]).iter().map(dlv).collect::<Vec<_>>()})
                })
                .collect();
            json!({"k":k,"r":r,"items":items})
        }
        "table" => {
            let mut cells = vec![];
            let rows = arr(&v[5]);
            for (i, row) in rows.iter().enumerate() {
                for (j, c) in arr(row).iter().enumerate() {
                    let c = arr(c);
                    let x = match st(&c[0]) {
                        "cell" => inlines(t, &c[4]),
                        "align" => c[4].clone(),
                        _ => Value::Null,
                    };
                    cells.push(json!({"pos":[i,j],"k":c[0],"r":t.region(c),"c":x}));
                }
            }
            let cols = rows.iter().map(|r| arr(r).len()).max().unwrap_or(0);
            json!({"k":k,"r":r,"centered":v[4],"rows":rows.len(),"cols":cols,"cells":cells})
        }
        "list" => {
            let items: Vec<Value> = arr(&v[4])
                .iter()
                .enumerate()
                .map(|(n, x)| {
                    let x = arr(x);
                    json!({"k":"li","r":t.region(x),"pos":n,"type":x[4],"suffix":x[5],
                           "todo":x[6],"c":blocks(t,&x[7])})
                })
                .collect();
            json!({"k":k,"r":r,"items":items})
        }
        "p" => {
            let ls: Vec<Value> =
                arr(&v[4]).iter().map(|x| inlines(t, x)).collect();
            json!({"k":k,"r":r,"lines":ls})
        }
        _ => panic!("block kind {}", k),
    }
}
