//! Log line generators.
use crate::fw::Rng;

const SYL: &[&str] = &[
    "ka", "lo", "mi", "nu", "po", "ri", "su", "ty", "vo", "wy", "gra", "sho", "plu", "tri", "kno", "lim", "por", "ness", "ton", "ver", "ling", "mos", "quil", "rut", "som", "gol", "jum", "hys", "olk", "urn",
];
const ENGLISH: &[&str] = &[
    "starting", "service", "connection", "request", "completed", "finished", "running", "container", "network", "interface", "controller", "message", "listening", "worker", "scheduler", "volume", "timeout", "response", "collected", "installing", "package", "unknown", "memory", "kernel", "process", "thread",
    "queue", "server", "client", "update", "removed", "created", "mounted", "skipping", "playbook", "handler", "gathering", "changed", "unreachable", "rescued", "ignored", "loading", "module", "compiling", "linking", "uploading", "artifact", "retrying", "backend", "frontend", "balancer", "listener", "stream",
    "buffer", "socket", "closing", "opened", "session", "user", "group", "system", "daemon", "systemd", "journal", "rotating", "archive", "snapshot", "restored", "migrating", "instance", "compute", "storage", "größe", "naïve", "mañana",
];

/// An ordinary word in the sense of C05.
pub fn is_ordinary(w: &str) -> bool {
    let n = w.chars().count();
    let low = w.to_lowercase();
    (4..=24).contains(&n)
        && w.len() <= 24
        && w.chars().all(|c| c.is_alphabetic())
        && !is_day_or_month(&low)
        && !w.chars().all(|c| c.is_ascii_hexdigit() || c == 'x' || c == 'Z')
        && !is_problem(&low)
        && !["AAAA", "gAAAA", "tap"].iter().any(|p| w.starts_with(p))
        && !(w.starts_with("tx"))
        && !low.starts_with("tmp")
        && !low.ends_with("tmp")
        && !["hash", "sha", "md", "refs", "repos", "http", "https", "ssh", "ftp"].contains(&low.as_str())
}
/// A word usable as the key of a pair whose value matters.
pub fn is_plain_key(w: &str) -> bool {
    let low = w.to_lowercase();
    is_ordinary(w) && w.is_ascii() && !["id", "key", "ref", "region", "token", "secret", "password"].iter().any(|k| low.contains(k))
}
pub const DAYS: &[&str] = &["sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"];
pub const MONTHS: &[&str] = &["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"];
pub fn is_day_or_month(w: &str) -> bool {
    DAYS.contains(&w) || MONTHS.contains(&w)
}
pub const PROBLEMS: &[&str] = &[
    "error", "fatal", "failure", "failed", "warning", "err", "fail", "warn", "denied", "assert", "assertion", "non-zero", "exception", "traceback",
];
pub fn is_problem(low: &str) -> bool {
    PROBLEMS.contains(&low)
}

/// Beginnings of a request cookie.
pub const COOKIES: &[&str] = &["AAAA", "gAAAA", "tap", "tx", "req-", "AUTH_", "tmp"];
const LITERALS: &[&str] = &[
    "req", "AUTH", "auth", "AAAA", "gAAAA", "tap", "tx", "tmp", "refs", "repos", "hash", "sha", "md", "http", "https", "ssh", "ftp", "sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "january", "february", "march", "april", "may", "june", "july", "august", "september", "october",
    "november", "december", "error", "fatal", "failure", "failed", "warning", "err", "fail", "warn", "denied", "assert", "assertion", "exception", "traceback", "id", "key", "ref", "region", "token", "secret", "password", "echo", "mirror", "iptables", "deadbeef", "cafe", "face", "jan", "sun", "mon", "request", "temp", "instance",
];
/// An ordinary word that resembles the special ones.
pub fn near_literal(r: &mut Rng) -> String {
    loop {
        let l = r.pick::<&str>(LITERALS).to_string();
        let mut v: Vec<char> = l.chars().collect();
        for _ in 0..r.range(1, 2) {
            let at = r.below(v.len() + 1);
            match r.below(6) {
                0 | 1 => {
                    let n = r.range(1, 6);
                    v.extend(chars(r, LOWER, n).chars());
                }
                2 => {
                    let n = r.range(1, 4);
                    v.splice(0..0, chars(r, LOWER, n).chars());
                }
                3 if at < v.len() => {
                    v.remove(at);
                }
                4 if at < v.len() => v[at] = if v[at].is_lowercase() { v[at].to_ascii_uppercase() } else { v[at].to_ascii_lowercase() },
                _ => v.insert(at, chars(r, LOWER, 1).chars().next().unwrap()),
            }
        }
        let w: String = v.into_iter().collect();
        if is_ordinary(&w) {
            return w;
        }
    }
}
/// An ordinary word, now and then a long or a misleading one.
pub fn wide_word(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => near_literal(r),
        2 => loop {
            let mut w = word(r);
            let n = r.range(12, 24);
            while w.len() < n {
                w.push_str(*r.pick::<&str>(SYL));
            }
            if is_ordinary(&w) {
                return w;
            }
        },
        3 if r.chance(1, 6) => {
            let n = r.range(4, 12);
            r.pick(&["g", "h", "k", "m", "o", "s", "u", "w", "z", "P", "W"]).repeat(n)
        }
        _ => word(r),
    }
}

pub fn word(r: &mut Rng) -> String {
    loop {
        let w = if r.chance(1, 3) {
            r.pick(ENGLISH).to_string()
        } else {
            let mut w = String::new();
            for _ in 0..r.range(2, 4) {
                w.push_str(*r.pick::<&str>(SYL));
            }
            w
        };
        let w = match r.below(8) {
            0 => w.to_uppercase(),
            1 => {
                let mut c = w.chars();
                let f = c.next().unwrap();
                f.to_uppercase().collect::<String>() + c.as_str()
            }
            _ => w,
        };
        if is_ordinary(&w) {
            return w;
        }
    }
}

pub fn key(r: &mut Rng) -> String {
    loop {
        let w = word(r);
        if is_plain_key(&w) && w.len() <= 10 {
            return w;
        }
    }
}

pub fn short_key(r: &mut Rng, max: usize) -> String {
    loop {
        let k = key(r);
        if k.len() <= max {
            return k;
        }
    }
}

pub fn chars(r: &mut Rng, alphabet: &str, n: usize) -> String {
    let a: Vec<char> = alphabet.chars().collect();
    (0..n).map(|_| *r.pick(&a)).collect()
}
pub const HEX: &str = "0123456789abcdef";
/// Hexadecimal digits in lower, upper or (rarely) mixed case.
pub fn hex(r: &mut Rng, n: usize) -> String {
    let s = chars(r, HEX, n);
    match r.below(8) {
        0 | 1 => s.to_uppercase(),
        2 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s,
    }
}
pub const LOWER: &str = "abcdefghijklmnopqrstuvwxyz";
pub const ALNUM: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
pub const B64: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/";

/// The kinds of volatile values; `n` gives two values of one kind the same shape where it matters.
pub const KINDS: &[&str] = &[
    "number", "decimal", "digits-in-word", "date", "time", "datetime-iso", "day", "month", "ipv4", "ipv6", "mac", "uuid", "hexid", "hex0x", "sha-prefixed", "long-token", "url", "tmp-path", "tmp-name", "base64", "base64-pad", "base64-short", "cookie-req", "cookie-tx", "cookie-tap", "cookie-auth", "cookie-gaaaa", "pid",
    "refs", "commit-range", "odd", "dash-name", "keyed-secret", "version-word",
];

/// Clash-free free-form text: not taken for another kind by its first characters.
fn free(r: &mut Rng, alphabet: &str, n: usize) -> String {
    loop {
        let s = chars(r, alphabet, n);
        let low = s.to_lowercase();
        if ["tap", "tx", "aaaa", "gaaaa", "req", "auth", "tmp", "ref", "rep", "md", "sha", "hash", "http", "ftp", "ssh"].iter().any(|p| low.starts_with(p))
            || low.contains("tmp")
            || s.ends_with("==")
            || s.chars().all(|c| c.is_ascii_hexdigit() || "xZ+/=.:-".contains(c))
        {
            continue;
        }
        return s;
    }
}

pub struct Shape {
    pub n: usize,
    pub word: String,
    pub style: usize,
}
pub fn shape(r: &mut Rng) -> Shape {
    Shape { n: r.below(1000), word: short_key(r, 8), style: r.below(6) }
}

pub fn volatile(r: &mut Rng, kind: &str, sh: &Shape) -> String {
    match kind {
        "number" => {
            let n = r.range(1, if sh.style == 0 { 15 } else { 9 });
            chars(r, "0123456789", n)
        }
        "decimal" => format!("{}.{}", r.below(100000), r.below(1000)),
        // A counter or a time stamp at the end of a word.
        "digits-in-word" if sh.n % 4 == 0 => {
            let n = r.range(1, 11);
            format!("unit{}", chars(r, "0123456789", n))
        }
        "digits-in-word" => {
            let d = match r.below(3) {
                0 => r.below(10).to_string(),
                1 => r.below(1000).to_string(),
                _ => format!("{}.{}", r.below(10), r.below(10)),
            };
            let suffix = ["", "ms", "th", "rc", "beta", ""][sh.style];
            format!("{}{}{}", sh.word, d, suffix)
        }
        "version-word" => format!("{}-{}.{}", sh.word, r.below(100), r.below(100)),
        "date" => match sh.style {
            0 | 1 | 2 => format!("20{:02}-{:02}-{:02}", r.below(100), r.range(1, 12), r.range(1, 28)),
            3 => format!("20{:02}.{:02}.{:02}", r.below(100), r.range(1, 12), r.range(1, 28)),
            4 => format!("{:02}-{:02}-20{:02}", r.range(1, 28), r.range(1, 12), r.below(100)),
            _ => match sh.n % 2 {
                0 => format!("20{:02}{:02}{:02}", r.below(100), r.range(1, 12), r.range(1, 28)),
                _ => format!("20{:02}/{:02}/{:02}", r.below(100), r.range(1, 12), r.range(1, 28)),
            },
        },
        "time" => {
            let t = format!("{:02}:{:02}:{:02}", r.below(24), r.below(60), r.below(60));
            match sh.style {
                0 | 1 => t,
                2 => format!("{}Z", t),
                3 => format!("{}.{:03}Z", t, r.below(1000)),
                4 => format!("{}.{:03}", t, r.below(1000)),
                _ => format!("{}.{:06}", t, r.below(1000000)),
            }
        }
        "datetime-iso" => format!("20{:02}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}Z", r.below(100), r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60), r.below(1000)),
        "day" => case(r, *r.clone().pick::<&str>(DAYS)),
        "month" => case(r, *r.clone().pick::<&str>(MONTHS)),
        "ipv4" => {
            let ip = format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(256), r.below(256));
            if sh.style == 0 {
                format!("{}:{}", ip, r.below(65536))
            } else {
                ip
            }
        }
        "ipv6" => {
            let ip = match r.below(3) {
                0 => format!("fe80::{:x}:{:x}", r.below(65536), r.below(65536)),
                1 => (0..8).map(|_| format!("{:x}", r.below(65536))).collect::<Vec<_>>().join(":"),
                _ => format!("fd00:{:x}::{:x}", r.below(65536), r.below(65536)),
            };
            if r.chance(1, 5) { ip.to_uppercase() } else { ip }
        }
        "mac" => {
            let sep = if sh.style == 0 { "-" } else { ":" };
            let m = (0..6).map(|_| format!("{:02x}", r.below(256))).collect::<Vec<_>>().join(sep);
            if r.chance(1, 4) { m.to_uppercase() } else { m }
        }
        "uuid" => format!("{}-{}-{}-{}-{}", hex(r, 8), hex(r, 4), hex(r, 4), hex(r, 4), hex(r, 12)),
        "hexid" => {
            let n = [7, 8, 12, 16, 32, 40][sh.style];
            hex(r, n)
        }
        "hex0x" => {
            let n = 1 + sh.n % 16;
            format!("0x{}", hex(r, n))
        }
        "sha-prefixed" => {
            let p = *r.pick(&["sha256", "sha1", "md5", "SHA512", "hash", "MD5"]);
            let n = r.range(8, 60);
            format!("{}:{}", p, chars(r, HEX, n))
        }
        "long-token" => {
            let n = r.range(64, 200);
            chars(r, &format!("{}_-", ALNUM), n)
        }
        "url" => {
            let scheme = *r.pick(&["http", "https", "ftp", "ssh", "HTTP"]);
            let alpha = LOWER.replace('t', "");
            let host = chars(r, &alpha, 8);
            let path = chars(r, &format!("{}/._", alpha), 12);
            match r.below(3) {
                0 => format!("{}://{}.example.com/{}", scheme, host, path),
                1 => format!("{}://{}.{}.{}.{}:{}/{}", scheme, r.below(256), r.below(256), r.below(256), r.below(256), r.below(65536), path),
                _ => format!("{}://{}", scheme, host),
            }
        }
        "tmp-path" => {
            let n = r.range(4, 12);
            let p = *r.pick(&["/tmp/", "/var/tmp/", "/home/zuul/tmp/", "/opt/build.tmp/", "/srv/_tmp/job/", "tmp/", "/home/zuul/tmp", "/opt/tmp-", "./tmp."]);
            format!("{}{}", p, chars(r, ALNUM, n))
        }
        "tmp-name" => {
            let n = r.range(5, 12);
            format!("tmp{}", chars(r, &format!("{}_", ALNUM), n))
        }
        "base64" => {
            let n = 25 + sh.n % 30;
            free(r, B64, n)
        }
        "base64-pad" => {
            let n = 26 + sh.n % 30;
            free(r, B64, n) + "=="
        }
        "base64-short" => {
            let n = r.range(6, 22);
            free(r, B64, n) + "=="
        }
        "cookie-req" => format!("req-{}", volatile(r, "uuid", sh)),
        "cookie-tx" => {
            let n = 6 + sh.n % 25;
            format!("tx{}{}", chars(r, LOWER, 1), chars(r, ALNUM, n))
        }
        "cookie-tap" => format!("tap{}-{}", chars(r, HEX, 8), chars(r, HEX, 2)),
        "cookie-auth" => {
            let n = r.range(4, 30);
            format!("AUTH_{}", chars(r, ALNUM, n))
        }
        "cookie-gaaaa" => {
            let n = 4 + sh.n % 36;
            format!("gAAAA{}", chars(r, ALNUM, n))
        }
        "pid" => format!("{}[{}]", sh.word, r.below(100000)),
        "refs" => match sh.n % 4 {
            2 => {
                let n = r.range(3, 14);
                format!("refs/heads/x-{}", chars(r, &format!("{}-_/", LOWER.replace('t', "")), n))
            }
            3 => {
                let n = r.range(3, 14);
                format!("refs/tags/v.{}", chars(r, &format!("{}.", ALNUM.replace('t', "")), n))
            }
            0 => format!("refs/changes/{:02}/{:05}/{}", r.below(100), r.below(100000), r.range(1, 9)),
            _ => format!("refs/zuul/master/Z{}", chars(r, HEX, 31)),
        },
        "commit-range" => format!("{}..{}", chars(r, HEX, 7), chars(r, HEX, 7)),
        "odd" => {
            let n = r.range(6, 16);
            let mut v: Vec<char> = free(r, &format!("{}<>{{}}%$,*!^", ALNUM), n).chars().collect();
            let at = r.range(1, n - 2);
            v[at] = *r.pick(&['<', '>', '{', '}', '%', '$', ',', '*']);
            v[0] = 'z';
            v[n - 1] = 'q';
            v.into_iter().collect()
        }
        "dash-name" => {
            let k = r.range(5, 6);
            let mut parts: Vec<String> = Vec::new();
            for _ in 0..k {
                let n = r.range(3, 8);
                parts.push(free(r, LOWER, n));
            }
            parts[0] = "heat".into();
            parts.join("-")
        }
        "keyed-secret" => {
            let k = ["user_id", "api_key", "git_ref", "the_region", "auth_token", "my_secret", "OS_PASSWORD", "Password_", "instance_ID", "x_Token_y", "Ref_spec", "KEY_name", "userid", "idle", "provider", "monkeys", "preferred", "_ID", "Regions", "tokens", "secrets", "passwords"][sh.n / 7 % 22];
            let sep = if sh.n % 2 == 0 { "=" } else { ":" };
            let n = 4 + sh.n % 20;
            format!("{}{}{}", k, sep, free(r, ALNUM, n))
        }
        k => panic!("unknown kind {}", k),
    }
}

fn case(r: &mut Rng, w: &str) -> String {
    match r.below(3) {
        0 => w.to_uppercase(),
        1 => w.to_string(),
        _ => w[..1].to_uppercase() + &w[1..],
    }
}

/// A line template: words and volatile slots.
#[derive(Clone)]
pub enum Part {
    Text(String),
    /// kind, shape word, shape n, style, context
    Slot(&'static str, String, usize, usize, usize, String),
}

pub const CONTEXTS: usize = 18;
fn wrap(ctx: usize, key: &str, v: &str) -> String {
    match ctx {
        0 | 1 => v.to_string(),
        2 => format!("\"{}\"", v),
        3 => format!("'{}'", v),
        4 => format!("({})", v),
        5 => format!("[{}]", v),
        6 => format!("<{}>", v),
        7 => format!("{},", v),
        8 => format!("{{{}}}", v),
        9 => format!("{}={}", key, v),
        10 => format!("{}:{}", key, v),
        11 => format!("{}=\"{}\"", key, v),
        12 => format!("{}='{}',", key, v),
        14 => format!("u'{}'", v),
        15 => format!("u\"{}\",", v),
        16 => format!("\\\"{}\\\"", v),
        17 => format!("'{}';", v),
        _ => format!("{}:", v),
    }
}

pub fn slot(r: &mut Rng) -> Part {
    let kind = *r.pick::<&str>(KINDS);
    slot_of(r, kind)
}
pub fn slot_of(r: &mut Rng, kind: &'static str) -> Part {
    let sh = shape(r);
    let ctx = r.below(CONTEXTS);
    // A pair is not itself the value of a pair.
    let ctx = if kind == "keyed-secret" && (9..=12).contains(&ctx) { 0 } else { ctx };
    let ctx = if ctx == 13 && !["pid", "number", "ipv4", "uuid", "hexid", "mac", "time", "date", "ipv6"].contains(&kind) { 0 } else { ctx };
    let mut k = short_key(r, 7);
    match r.below(6) {
        0 => k.insert(0, '_'),
        1 => k = k.to_uppercase(),
        _ => {}
    }
    Part::Slot(kind, sh.word, sh.n, sh.style, ctx, k)
}

pub fn instantiate(r: &mut Rng, parts: &[Part]) -> String {
    let v: Vec<String> = parts
        .iter()
        .map(|p| match p {
            Part::Text(t) => t.clone(),
            Part::Slot(kind, w, n, style, ctx, key) => {
                let sh = Shape { n: *n, word: w.clone(), style: *style };
                wrap(*ctx, key, &volatile(r, kind, &sh))
            }
        })
        .collect();
    v.join(" ")
}

/// A template with `words` ordinary words and `slots` volatile slots.
pub fn template(r: &mut Rng, words: usize, slots: usize) -> Vec<Part> {
    let mut v: Vec<Part> = (0..words).map(|_| Part::Text(word(r))).collect();
    for _ in 0..slots {
        let at = r.below(v.len() + 1);
        let s = slot(r);
        v.insert(at, s);
    }
    v
}
