// Runs jobs against the public API of rawloader and records what it observes.
//   rlharness JOBS OUT
// JOBS: one JSON object per line.  OUT: for every job a line "B <id>" before it
// starts and one JSON line with the observation after it ended, so that a crash
// or a hang can be attributed to the job that caused it.
extern crate rawloader;
#[macro_use] extern crate serde_json;

use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic;
use std::sync::{Arc, Barrier};
use std::thread;
use serde_json::Value;
use rawloader::{RawImage, CFA};
use rawloader::decoders::Orientation;

fn bits(x: f32) -> u32 { if x.is_nan() { 0x7fc00000 } else { x.to_bits() } }

struct Hash(u64);
impl Hash {
  fn byte(&mut self, b: u8) { self.0 = (self.0 ^ (b as u64)).wrapping_mul(0x100000001b3); }
  fn u64(&mut self, v: u64) { for i in 0..8 { self.byte((v >> (8*i)) as u8); } }
  fn str(&mut self, s: &str) { for b in s.bytes() { self.byte(b); } self.byte(0); }
}

fn pattern(c: &CFA, h: usize, w: usize) -> Vec<usize> {
  let mut out = Vec::new();
  for r in 0..h { for x in 0..w { out.push(c.color_at(r, x)); } }
  out
}

fn orient(o: &Orientation) -> u16 {
  match *o {
    Orientation::Normal => 1, Orientation::HorizontalFlip => 2, Orientation::Rotate180 => 3,
    Orientation::VerticalFlip => 4, Orientation::Transpose => 5, Orientation::Rotate90 => 6,
    Orientation::Transverse => 7, Orientation::Rotate270 => 8, Orientation::Unknown => 0,
  }
}

fn digest(img: &RawImage) -> String {
  let mut h = Hash(0xcbf29ce484222325);
  h.str(&img.make); h.str(&img.model); h.str(&img.clean_make); h.str(&img.clean_model);
  h.u64(img.width as u64); h.u64(img.height as u64); h.u64(img.cpp as u64);
  for i in 0..4 {
    h.u64(bits(img.wb_coeffs[i]) as u64);
    h.u64(img.whitelevels[i] as u64); h.u64(img.blacklevels[i] as u64);
    h.u64(img.crops[i] as u64);
    for j in 0..3 { h.u64(bits(img.xyz_to_cam[i][j]) as u64); }
  }
  h.str(&img.cfa.name);
  for p in pattern(&img.cfa, 12, 12) { h.u64(p as u64); }
  h.u64(orient(&img.orientation) as u64);
  h.u64(img.data.len() as u64);
  for &d in &img.data { h.byte(d as u8); h.byte((d >> 8) as u8); }
  format!("{:016x}", h.0)
}

fn fdigest(w: usize, h: usize, data: &[f32]) -> String {
  let mut x = Hash(0xcbf29ce484222325);
  x.u64(w as u64); x.u64(h as u64); x.u64(data.len() as u64);
  for &d in data { let b = bits(d); x.byte(b as u8); x.byte((b>>8) as u8); x.byte((b>>16) as u8); x.byte((b>>24) as u8); }
  format!("{:016x}", x.0)
}

fn write_bin(path: &str, bytes: &[u8]) {
  let mut f = File::create(path).unwrap();
  f.write_all(bytes).unwrap();
}

fn meta(img: &RawImage) -> Value {
  let cropped = panic::catch_unwind(|| pattern(&img.cropped_cfa(), 12, 12)).unwrap_or(vec![]);
  json!({
    "make": img.make, "model": img.model, "clean_make": img.clean_make, "clean_model": img.clean_model,
    "width": img.width, "height": img.height, "cpp": img.cpp,
    "wb": img.wb_coeffs.iter().map(|&x| bits(x)).collect::<Vec<_>>(),
    "white": img.whitelevels.to_vec(), "black": img.blacklevels.to_vec(),
    "xyz": img.xyz_to_cam.iter().map(|r| r.iter().map(|&x| bits(x)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "cfaname": img.cfa.name, "cfaw": img.cfa.width, "cfah": img.cfa.height,
    "cfavalid": img.cfa.is_valid(),
    "cfa": pattern(&img.cfa, 12, 12), "croppedcfa": cropped,
    "crops": img.crops.to_vec(), "orientation": orient(&img.orientation),
    "mono": img.is_monochrome(), "len": img.data.len(), "digest": digest(img),
  })
}

fn decode(job: &Value) -> Value {
  let path = job["path"].as_str().unwrap().to_string();
  // decode() promises never to unwind: an unwinding decode is reported as such
  let r = panic::catch_unwind(move || rawloader::decode(&path));
  match r {
    Err(_) => json!({"res": "unwound"}),
    Ok(Err(e)) => json!({"res": "err", "err": e}),
    Ok(Ok(img)) => {
      let mut m = meta(&img);
      m["res"] = json!("ok");
      let max = job["inline"].as_u64().unwrap_or(0) as usize;
      if let Some(p) = job["out"].as_str() {
        let mut b = Vec::with_capacity(img.data.len()*2);
        for &d in &img.data { b.push(d as u8); b.push((d >> 8) as u8); }
        write_bin(p, &b);
      } else if let Some(n) = job["lastcols"].as_u64() {
        // the rightmost columns only
        let n = n as usize;
        let w = img.width*img.cpp;
        if n > 0 && w >= n && img.data.len() % w == 0 {
          m["data"] = json!(img.data.chunks(w).flat_map(|l| l[w-n..].iter().cloned()).collect::<Vec<u16>>());
        }
      } else if img.data.len() <= max {
        m["data"] = json!(img.data);
      }
      if let Some(dev) = job["develop"].as_array() {
        if img.data.len() as u64 <= job["devmax"].as_u64().unwrap_or(1 << 40) {
          m["dev"] = Value::Array(dev.iter().map(|d| develop_img(&img, d)).collect());
        }
      }
      if job["matrix"].as_bool().unwrap_or(false) { m["matrix"] = matrix(&img); }
      m
    }
  }
}

fn u4(v: &Value) -> [u16;4] {
  [v[0].as_u64().unwrap() as u16, v[1].as_u64().unwrap() as u16, v[2].as_u64().unwrap() as u16, v[3].as_u64().unwrap() as u16]
}
fn fb(v: &Value) -> f32 { f32::from_bits(v.as_u64().unwrap() as u32) }

fn build(v: &Value) -> RawImage {
  let c = &v["crops"];
  let mut xyz = [[0.0f32;3];4];
  for i in 0..4 { for j in 0..3 { xyz[i][j] = fb(&v["xyz"][i][j]); } }
  let data: Vec<u16> = if let Some(f) = v["fill"].as_u64() {
    vec![f as u16; (v["width"].as_u64().unwrap() * v["height"].as_u64().unwrap() * v["cpp"].as_u64().unwrap()) as usize]
  } else if let Some(p) = v["datafile"].as_str() {
    let b = std::fs::read(p).unwrap();
    b.chunks(2).map(|c| (c[0] as u16) | ((c[1] as u16) << 8)).collect()
  } else {
    v["data"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect()
  };
  RawImage {
    make: "T".to_string(), model: "T".to_string(), clean_make: "T".to_string(), clean_model: "T".to_string(),
    width: v["width"].as_u64().unwrap() as usize, height: v["height"].as_u64().unwrap() as usize,
    cpp: v["cpp"].as_u64().unwrap() as usize,
    wb_coeffs: [fb(&v["wb"][0]), fb(&v["wb"][1]), fb(&v["wb"][2]), fb(&v["wb"][3])],
    whitelevels: u4(&v["white"]), blacklevels: u4(&v["black"]),
    xyz_to_cam: xyz,
    cfa: CFA::new(v["cfa"].as_str().unwrap()),
    crops: [c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as usize, c[2].as_u64().unwrap() as usize, c[3].as_u64().unwrap() as usize],
    orientation: Orientation::from_u16(v["orientation"].as_u64().unwrap() as u16),
    data: data,
  }
}

fn develop_img(img: &RawImage, d: &Value) -> Value {
  let kind = d["kind"].as_str().unwrap().to_string();
  let mw = d["mw"].as_u64().unwrap() as usize;
  let mh = d["mh"].as_u64().unwrap() as usize;
  let img2 = panic::AssertUnwindSafe(img);
  let r = panic::catch_unwind(move || -> Result<(usize, usize, Vec<f32>, Vec<u8>), String> {
    match kind.as_ref() {
      "rgb" => { let x = img2.to_rgb(mw, mh)?; Ok((x.width, x.height, x.data, vec![])) },
      "linear" => { let x = img2.to_linear_rgb(mw, mh)?; Ok((x.width, x.height, x.data, vec![])) },
      _ => { let x = img2.to_srgb(mw, mh)?; Ok((x.width, x.height, vec![], x.data)) },
    }
  });
  match r {
    Err(_) => json!({"res": "unwound"}),
    Ok(Err(e)) => json!({"res": "err", "err": e}),
    Ok(Ok((w, h, f, b))) => {
      let mut o = json!({"res": "ok", "width": w, "height": h, "len": f.len() + b.len()});
      o["digest"] = json!(if f.len() > 0 { fdigest(w, h, &f) } else { fdigest(w, h, &b.iter().map(|&x| x as f32).collect::<Vec<_>>()) });
      if let Some(p) = d["out"].as_str() {
        if f.len() > 0 {
          let mut v = Vec::with_capacity(f.len()*4);
          for &x in &f { let t = bits(x); v.push(t as u8); v.push((t>>8) as u8); v.push((t>>16) as u8); v.push((t>>24) as u8); }
          write_bin(p, &v);
        } else { write_bin(p, &b); }
      } else if d["inline"].as_bool().unwrap_or(true) {
        if f.len() > 0 { o["data"] = json!(f.iter().map(|&x| bits(x)).collect::<Vec<_>>()); }
        else { o["data"] = json!(b); }
      }
      o
    }
  }
}

fn matrix(img: &RawImage) -> Value {
  let m = img.cam_to_xyz();
  let n = img.neutralwb();
  json!({"cam_to_xyz": m.iter().map(|r| r.iter().map(|&x| bits(x)).collect::<Vec<_>>()).collect::<Vec<_>>(),
         "neutralwb": n.iter().map(|&x| bits(x)).collect::<Vec<_>>() })
}

fn develop(job: &Value) -> Value {
  let img = build(&job["img"]);
  let mut o = json!({"res": "ok"});
  if let Some(dev) = job["develop"].as_array() {
    o["dev"] = Value::Array(dev.iter().map(|d| develop_img(&img, d)).collect());
  }
  if job["matrix"].as_bool().unwrap_or(false) { o["matrix"] = matrix(&img); }
  if job["meta"].as_bool().unwrap_or(false) { o["meta"] = meta(&img); }
  o
}

fn cfa(job: &Value) -> Value {
  // the pattern after every prefix of the shifts, seen from (y0, x0)
  let name = job["name"].as_str().unwrap().to_string();
  let shifts: Vec<(usize, usize)> = job["shifts"].as_array().unwrap().iter()
    .map(|s| (s[0].as_u64().unwrap() as usize, s[1].as_u64().unwrap() as usize)).collect();
  let n = |k: &str, d: u64| job[k].as_u64().unwrap_or(d) as usize;
  let (h, w, y0, x0) = (n("h", 12), n("w", 12), n("y0", 0), n("x0", 0));
  let r = panic::catch_unwind(move || {
    let see = |c: &CFA| {
      let mut out = Vec::new();
      for y in 0..h { for x in 0..w { out.push(c.color_at(y0+y, x0+x)); } }
      out
    };
    let mut c = CFA::new(&name);
    let mut obs = Vec::new();
    for i in 0..(shifts.len()+1) {
      if i > 0 { c = c.shift(shifts[i-1].0, shifts[i-1].1); }
      obs.push(json!({"res": "ok", "pattern": see(&c), "cloned": see(&c.clone()), "width": c.width, "height": c.height, "valid": c.is_valid()}));
    }
    obs
  });
  match r {
    Err(_) => json!({"res": "unwound"}),
    Ok(o) => json!({"res": "ok", "obs": o}),
  }
}

// one observation of a path: what decode() returned, as a comparable string
fn observe(path: &str) -> String {
  let p = path.to_string();
  match panic::catch_unwind(move || rawloader::decode(&p)) {
    Err(_) => "unwound".to_string(),
    Ok(Err(e)) => format!("err {}", e),
    Ok(Ok(img)) => format!("ok {}", digest(&img)),
  }
}

// the same, with pictures developed from it
fn observe_developed(path: &str) -> String {
  let p = path.to_string();
  match panic::catch_unwind(move || rawloader::decode(&p)) {
    Err(_) => "unwound".to_string(),
    Ok(Err(e)) => format!("err {}", e),
    Ok(Ok(img)) => {
      let mut s = format!("ok {}", digest(&img));
      for &(kind, mw, mh) in [("rgb", 0, 0), ("linear", 9, 7), ("srgb", 3, 50)].iter() {
        let d = develop_img(&img, &json!({"kind": kind, "mw": mw, "mh": mh, "inline": false}));
        s.push_str(&format!(" {} {}", d["res"].as_str().unwrap(), d["digest"].as_str().unwrap_or("")));
      }
      s
    },
  }
}

fn look(job: &Value, path: &str) -> String {
  if job["developed"].as_bool().unwrap_or(false) { observe_developed(path) } else { observe(path) }
}

// files come and go, in between they're decoded
fn history(job: &Value) -> Value {
  let mut seen = Vec::new();
  for st in job["steps"].as_array().unwrap() {
    let p = st[1].as_str().unwrap();
    match st[0].as_str().unwrap() {
      "w" => { std::fs::copy(st[2].as_str().unwrap(), p).unwrap(); },
      "x" => { let _ = std::fs::remove_file(p); },
      _ => seen.push(look(job, p)),
    }
  }
  json!({"res": "ok", "seen": seen})
}

fn concurrent(job: &Value) -> Value {
  let paths: Vec<String> = job["paths"].as_array().unwrap().iter().map(|p| p.as_str().unwrap().to_string()).collect();
  let threads = job["threads"].as_u64().unwrap() as usize;
  let rounds = job["rounds"].as_u64().unwrap() as usize;
  let paths = Arc::new(paths);
  let developed = job["developed"].as_bool().unwrap_or(false);
  let barrier = Arc::new(Barrier::new(threads));
  let mut hs = Vec::new();
  for t in 0..threads {
    let paths = paths.clone();
    let barrier = barrier.clone();
    hs.push(thread::spawn(move || {
      barrier.wait();
      let mut seen: Vec<(usize, String)> = Vec::new();
      for r in 0..rounds {
        for i in 0..paths.len() {
          let k = (i * (2*t+1) + t + r) % paths.len();
          seen.push((k, if developed { observe_developed(&paths[k]) } else { observe(&paths[k]) }));
        }
      }
      seen
    }));
  }
  let mut all: Vec<Vec<String>> = vec![Vec::new(); paths.len()];
  let mut dead = 0;
  for h in hs {
    match h.join() {
      Ok(seen) => for (k, o) in seen { if !all[k].contains(&o) { all[k].push(o); } },
      Err(_) => dead += 1,
    }
  }
  json!({"res": "ok", "observed": all, "dead": dead})
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if ::std::env::var("RLH_PANIC").is_err() { panic::set_hook(Box::new(|_| {})); }
  let jobs = BufReader::new(File::open(&args[1]).unwrap());
  let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
  for line in jobs.lines() {
    let line = line.unwrap();
    if line.trim().is_empty() { continue }
    let job: Value = serde_json::from_str(&line).unwrap();
    let id = job["id"].clone();
    out.write_all(format!("B {}\n", id).as_bytes()).unwrap();
    let mut r = match job["op"].as_str().unwrap() {
      "decode" => decode(&job),
      "develop" => develop(&job),
      "cfa" => cfa(&job),
      "concurrent" => concurrent(&job),
      "history" => history(&job),
      _ => json!({"res": "badop"}),
    };
    r["id"] = id;
    let mut s = serde_json::to_string(&r).unwrap();
    s.push('\n');
    out.write_all(s.as_bytes()).unwrap();
  }
}
