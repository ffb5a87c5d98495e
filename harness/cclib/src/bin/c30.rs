//! C30: the Central Council library comes from its cache, or else is downloaded and cached.
//!
//! Nothing real is touched: `XDG_CACHE_HOME` and `HOME` name a scratch directory which each case
//! makes and removes, and the only network is a proxy in this process (named by `HTTPS_PROXY`)
//! which answers every host with what the case says, under a certificate made for this test.

#[path = "../../../checks/src/bf.rs"]
#[allow(unused)]
mod bf;
#[path = "../../../checks/src/meth.rs"]
mod meth;
#[path = "../../../checks/src/mlib.rs"]
mod mlib;
#[path = "../../../checks/src/pn.rs"]
mod pn;

use std::{
    collections::BTreeMap,
    fs,
    io::{BufRead, BufReader, Read, Write},
    net::{TcpListener, TcpStream},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex, OnceLock,
    },
    time::Duration,
};

use bellframe::MethodLib;
use mlib::{Lib, Meth};
use proptest::{prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vcore::{ensure, Facet, Obs, Property};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Cache {
    Missing,
    NoDirectory,
    Directory,
    Dangling,
    Valid(Lib),
    Text(String),
    Bytes(Vec<u8>),
    /// A library, but one of its bytes isn't text any more
    Garbled(Lib, usize, u8),
    /// Bytes which don't belong there before and after a library
    Wrapped(Vec<u8>, Lib, Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Net {
    /// The proxy hangs up
    Down,
    /// Connected, but the connection isn't accepted any further
    NoTls,
    /// An error status, with text that isn't a library
    Status(u16),
    /// A library
    Serve(Lib),
    /// A library, but the connection ends before all of it is sent
    CutOff(Lib, usize),
    /// Something else
    Text(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    cache: Cache,
    net: Net,
    /// What the network is like when asked a second time
    then: Net,
    /// What else is true of the cache
    look: Look,
}

#[derive(Debug, Clone, Default, Serialize, Deserialize)]
struct Look {
    /// When the file was last changed, in seconds from 1970
    changed: Option<u64>,
    /// The file is elsewhere, and there is a link to it where the cache should be
    linked: bool,
    /// A valid file may only be read
    read_only: bool,
    /// There are other files around it, which may hold libraries
    others: Vec<(String, Lib)>,
}

struct Proxy {
    behaviour: Mutex<Net>,
    requests: AtomicUsize,
}

static PROXY: OnceLock<&'static Proxy> = OnceLock::new();
/// The environment and the proxy are shared, so one case runs at a time
static ONE_AT_A_TIME: Mutex<()> = Mutex::new(());

fn tls() -> native_tls::TlsAcceptor {
    let id = native_tls::Identity::from_pkcs8(include_bytes!("../../tls/cert.pem"), include_bytes!("../../tls/key.pem"));
    native_tls::TlsAcceptor::new(id.expect("the test's own certificate")).expect("TLS")
}

fn request_head(r: &mut dyn BufRead) -> Option<String> {
    let mut head = String::new();
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        if line.trim().is_empty() {
            return Some(head);
        }
        head.push_str(&line);
    }
}

fn answer(proxy: &Proxy, acceptor: &native_tls::TlsAcceptor, mut s: TcpStream) -> Option<()> {
    s.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
    let mut reader = BufReader::new(s.try_clone().ok()?);
    request_head(&mut reader)?;
    proxy.requests.fetch_add(1, Ordering::SeqCst);
    let how = proxy.behaviour.lock().unwrap().clone();
    if let Net::Down = how {
        return None;
    }
    s.write_all(b"HTTP/1.1 200 Connection established\r\n\r\n").ok()?;
    if let Net::NoTls = how {
        return None;
    }
    let mut t = acceptor.accept(s).ok()?;
    request_head(&mut BufReader::new(&mut t))?;
    let (status, body, cut) = match how {
        Net::Status(s) => (s, format!("{}: Not Found", s), None),
        Net::Serve(l) => (200, l.text(), None),
        Net::CutOff(l, at) => {
            let text = l.text();
            let at = at % text.len();
            (200, text, Some(at))
        }
        Net::Text(t) => (200, t, None),
        Net::Down | Net::NoTls => unreachable!(),
    };
    let head = format!(
        "HTTP/1.1 {} X\r\nContent-Type: text/plain; charset=utf-8\r\nContent-Length: {}\r\nConnection: close\r\n\r\n",
        status,
        body.len()
    );
    t.write_all(head.as_bytes()).ok()?;
    t.write_all(&body.as_bytes()[..cut.unwrap_or(body.len())]).ok()?;
    t.flush().ok()?;
    let _ = t.shutdown();
    let _ = t.get_mut().shutdown(std::net::Shutdown::Write);
    let _ = t.get_mut().read(&mut [0; 64]);
    Some(())
}

fn proxy() -> &'static Proxy {
    PROXY.get_or_init(|| {
        let listener = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let url = format!("http://{}", listener.local_addr().unwrap());
        for k in ["HTTPS_PROXY", "https_proxy", "HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy"] {
            std::env::set_var(k, &url);
        }
        for k in ["NO_PROXY", "no_proxy", "REQUEST_METHOD"] {
            std::env::remove_var(k);
        }
        std::env::set_var("SSL_CERT_FILE", concat!(env!("CARGO_MANIFEST_DIR"), "/tls/ca.pem"));
        let p: &'static Proxy = Box::leak(Box::new(Proxy { behaviour: Mutex::new(Net::Down), requests: AtomicUsize::new(0) }));
        std::thread::spawn(move || {
            let acceptor = tls();
            for s in listener.incoming().flatten() {
                answer(p, &acceptor, s);
            }
        });
        p
    })
}

/// Everything in a directory: its files, what they hold and when they were changed
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, String> {
    fn go(dir: &Path, out: &mut BTreeMap<PathBuf, String>) {
        for e in fs::read_dir(dir).into_iter().flatten().flatten() {
            let meta = fs::symlink_metadata(e.path()).unwrap();
            let what = if meta.is_dir() {
                go(&e.path(), out);
                "directory".to_owned()
            } else if meta.is_symlink() {
                format!("link to {:?}", fs::read_link(e.path()))
            } else {
                format!("{:?} {:?}", meta.modified(), fs::read(e.path()))
            };
            out.insert(e.path(), what);
        }
    }
    let mut out = BTreeMap::new();
    go(dir, &mut out);
    out
}

fn is_lib(lib: &MethodLib, want: &[Meth], what: &str) -> Result<(), String> {
    let json = lib.to_json().map_err(|e| e.to_string())?;
    let sorted = |v: &[Meth]| {
        let mut v: Vec<_> = v.iter().map(Meth::known).collect();
        v.sort();
        v
    };
    let (got, want) = (sorted(&mlib::read(&json)?), sorted(want));
    ensure!(got == want, "{}: got {:?}, expected {:?}", what, got, want);
    Ok(())
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    let _guard = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
    let proxy = proxy();
    let dir = std::env::temp_dir().join(format!("verif-c30-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let dir = Scratch(dir);
    let cache_dir = dir.0.join("cache");
    std::env::set_var("HOME", dir.0.join("home"));
    std::env::set_var("XDG_CACHE_HOME", &cache_dir);
    let file = cache_dir.join("cccbr-methods.json");
    if !matches!(c.cache, Cache::NoDirectory) {
        fs::create_dir_all(&cache_dir).unwrap();
    }
    let mut cached: Option<Vec<Meth>> = None;
    let mut store = true;
    match &c.cache {
        Cache::Missing => {}
        Cache::NoDirectory => store = false,
        Cache::Directory => {
            fs::create_dir_all(&file).unwrap();
            store = false;
        }
        Cache::Dangling => {
            std::os::unix::fs::symlink(dir.0.join("nowhere").join("at-all"), &file).unwrap();
            store = false;
        }
        Cache::Valid(l) => {
            fs::write(&file, l.text()).unwrap();
            cached = Some(l.methods.clone());
        }
        Cache::Text(t) => {
            fs::write(&file, t).unwrap();
            // The text might happen to be a library
            if MethodLib::from_json(t).is_ok() {
                return Ok(());
            }
        }
        Cache::Bytes(b) => fs::write(&file, b).unwrap(),
        Cache::Garbled(l, at, byte) => {
            let mut b = l.text().into_bytes();
            let at = at % b.len();
            b[at] = *byte;
            fs::write(&file, &b).unwrap();
            if std::str::from_utf8(&b).is_ok() {
                return Ok(());
            }
            obs.label("garbled");
        }
        Cache::Wrapped(a, l, b) => {
            fs::write(&file, [&a[..], l.text().as_bytes(), &b[..]].concat()).unwrap();
        }
    }
    if file.is_file() {
        if c.look.linked {
            let real = dir.0.join("elsewhere");
            fs::rename(&file, &real).unwrap();
            std::os::unix::fs::symlink(&real, &file).unwrap();
            obs.label("linked");
        }
        if let Some(s) = c.look.changed {
            let f = fs::File::options().append(true).open(&file).unwrap();
            f.set_modified(std::time::UNIX_EPOCH + Duration::from_secs(s)).unwrap();
            obs.label("an old file");
        }
        if c.look.read_only && matches!(c.cache, Cache::Valid(_)) {
            use std::os::unix::fs::PermissionsExt;
            fs::set_permissions(&file, fs::Permissions::from_mode(0o444)).unwrap();
        }
    }
    if cache_dir.is_dir() {
        for (name, l) in &c.look.others {
            fs::write(cache_dir.join(name), l.text()).unwrap();
        }
    }
    obs.label(match c.cache {
        Cache::Missing => "no cache",
        Cache::NoDirectory => "no cache directory",
        Cache::Directory => "cache is a directory",
        Cache::Dangling => "cache is a broken link",
        Cache::Valid(_) => "cached",
        _ => "bad cache",
    });
    for (turn, net) in [&c.net, &c.then].into_iter().enumerate() {
        let what = format!("asking {} time, cache {:?}, network {:?}", ["the first", "a second"][turn], c.cache, net);
        *proxy.behaviour.lock().unwrap() = net.clone();
        let before = snapshot(&dir.0);
        let asked = proxy.requests.load(Ordering::SeqCst);
        let got = vcore::panics(MethodLib::cc_lib).map_err(|e| format!("{}: panic: {}", what, e))?;
        let asked = proxy.requests.load(Ordering::SeqCst) - asked;
        let after = snapshot(&dir.0);
        match (&cached, net) {
            (Some(want), _) => {
                let got = got.ok_or_else(|| format!("{}: nothing returned", what))?;
                is_lib(&got, want, &what)?;
                ensure!(asked == 0, "{}: it was asked for again", what);
                ensure!(before == after, "{}: files changed from {:?} to {:?}", what, before, after);
                obs.label_if(turn == 1 && !matches!(c.cache, Cache::Valid(_)), "cached after download");
            }
            (None, Net::Serve(l)) => {
                let got = got.ok_or_else(|| format!("{}: nothing returned", what))?;
                is_lib(&got, &l.methods, &what)?;
                if store {
                    let text = fs::read_to_string(&file).map_err(|e| format!("{}: not cached: {}", what, e))?;
                    let stored = MethodLib::from_json(&text).map_err(|e| format!("{}: cached {:?}: {}", what, text, e))?;
                    is_lib(&stored, &l.methods, &format!("{}: the cache", what))?;
                    cached = Some(l.methods.clone());
                }
                if let Cache::Directory = c.cache {
                    ensure!(file.is_dir(), "{}: the directory is gone", what);
                }
                obs.label("downloaded");
            }
            (None, _) => {
                ensure!(got.is_none(), "{}: got {:?}", what, got);
                ensure!(before == after, "{}: files changed from {:?} to {:?}", what, before, after);
                ensure!(asked <= 2, "{}: asked {} times", what, asked);
                obs.label("nothing to be had");
            }
        }
    }
    obs.nontrivial();
    Ok(())
}

fn broken() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (mlib::lib(4), any::<prop::sample::Index>()).prop_map(|(l, i)| {
            // The start of a library (never all of it)
            let t: Vec<char> = l.text().trim_end().chars().collect();
            t[..i.index(t.len())].iter().collect()
        }),
        2 => select(vec!["", " ", "{}", "[]", "null", "{\"groups\":null}", "404: Not Found", "<html></html>", "{\"groups\":[{}]}",
            "{\"groups\":[{\"s\":0,\"c\":1,\"m\":[]}]}", "{\"groups\":[{\"s\":8,\"c\":9,\"m\":[]}]}", "{\"groups\":[]} x"])
            .prop_map(str::to_owned),
        1 => ".{0,20}".prop_filter("not a library", |s| MethodLib::from_json(s).is_err()),
    ]
    .boxed()
}

/// What makes a library's text not be JSON when put before and after it
fn wrapping() -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
    let before: Vec<&[u8]> = vec![b"\xef\xbb\xbf", b"\0", b"{", b"<html>", b"//\n", b"\xff\xfe", b"[]"];
    let after: Vec<&[u8]> = vec![b"\0", b"}", b"]", b"{}", b"\0\0\0\0", b"\xff", b",", b"x", b"\x1a", b"\n{\"groups\":[]}"];
    prop_oneof![
        select(before).prop_map(|a| (a.to_vec(), vec![])),
        select(after).prop_map(|b| (vec![], b.to_vec())),
    ]
    .boxed()
}

/// Many methods, as the real library has
fn big() -> BoxedStrategy<Lib> {
    (mlib::lib(6), prop_oneof![2 => 2_000usize..8_000, 1 => 8_000usize..30_000])
        .prop_map(|(mut l, n)| {
            let some: Vec<Meth> = l.methods.iter().filter(|m| m.title.is_none()).cloned().collect();
            for (m, i) in some.iter().cycle().zip(0..n) {
                l.methods.push(Meth { name: format!("{} {}", m.name, i), ..m.clone() });
            }
            l.unique()
        })
        .boxed()
}

fn net() -> BoxedStrategy<Net> {
    prop_oneof![
        3 => Just(Net::Down),
        1 => Just(Net::NoTls),
        1 => select(vec![404u16, 500, 403]).prop_map(Net::Status),
        4 => mlib::lib(5).prop_map(Net::Serve),
        1 => (mlib::lib(5), any::<usize>()).prop_map(|(l, k)| Net::CutOff(l, k)),
        2 => broken().prop_map(Net::Text),
    ]
    .boxed()
}

fn look() -> BoxedStrategy<Look> {
    let changed = prop_oneof![3 => Just(None), 1 => Just(Some(0)), 2 => (0u64..4_000_000_000).prop_map(Some)];
    let names = ["cccbr-methods", "cccbr-methods.json.bak", "cccbr-methods.json~", "cccbr-methods.json.tmp", "cc-methods.json", "CCCBR-METHODS.JSON", "bellframe.json"];
    let others = prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec((select(names.map(str::to_owned).to_vec()), mlib::lib(3)), 1..3)];
    (changed, prop::bool::weighted(0.2), prop::bool::weighted(0.2), others)
        .prop_map(|(changed, linked, read_only, others)| Look { changed, linked, read_only, others })
        .boxed()
}

fn main() {
    proxy();
    vcore::main(Property {
        id: "C30",
        assumptions: vec![
            "the network is stood in for by a proxy in the same process; no real host is contacted",
            "the checks run as root, so files that can't be read for lack of permission aren't tried",
        ],
        facets: vec![Facet::random(
            "histories",
            1_200,
            20_000,
            "every case asks twice, over some state of the cache and network",
            |_| {
                let cache = prop_oneof![
                    2 => Just(Cache::Missing),
                    1 => Just(Cache::NoDirectory),
                    1 => Just(Cache::Directory),
                    1 => Just(Cache::Dangling),
                    4 => mlib::lib(6).prop_map(Cache::Valid),
                    4 => broken().prop_map(Cache::Text),
                    1 => select(vec![vec![0xff, 0xfe], vec![b'{', 0x80], b"{\"groups\":[\xff]}".to_vec()]).prop_map(Cache::Bytes),
                    2 => (mlib::lib(6), any::<usize>(), select(vec![0xffu8, 0xc0, 0x80, 0xfe, 0xf8, 0xa0]))
                        .prop_map(|(l, at, byte)| Cache::Garbled(l, at, byte)),
                    1 => (mlib::lib(4), wrapping()).prop_map(|(l, (a, b))| Cache::Wrapped(a, l, b)),
                ];
                (cache, net(), net(), look()).prop_map(|(cache, net, then, look)| Case { cache, net, then, look }).boxed()
            },
            check,
        ), Facet::random(
            "big libraries",
            6,
            150,
            "every case asks twice, and a library of thousands of methods is cached or served",
            |_| {
                let cache = prop_oneof![3 => big().prop_map(Cache::Valid), 1 => Just(Cache::Missing),
                    1 => (big(), any::<usize>()).prop_map(|(l, at)| Cache::Garbled(l, at, 0xff))];
                (cache, big().prop_map(Net::Serve), net(), look()).prop_map(|(cache, net, then, look)| Case { cache, net, then, look }).boxed()
            },
            check,
        )],
    });
}
