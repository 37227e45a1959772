// Decodes every file given on the command line and prints everything it got.
extern crate rawloader;
use std::env;
fn main() {
  let args: Vec<String> = env::args().skip(1).collect();
  let sizes: &[(usize, usize)] = match args[0].as_ref() {
    "develop" => &[(0, 0)],
    "scaled" => &[(0, 0), (20, 40), (40, 20), (9, 9), (0, 7), (1000, 5), (3, 1000)],
    _ => &[],
  };
  for f in &args[1..] {
    println!("file {}", f.rsplit('/').next().unwrap());
    match rawloader::decode(f) {
      Err(e) => println!("error {}", e),
      Ok(i) => {
        println!("{:?} {:?} {:?} {:?}", i.make, i.model, i.clean_make, i.clean_model);
        println!("{} x {} x {} wb {:?} white {:?} black {:?}", i.width, i.height, i.cpp, i.wb_coeffs, i.whitelevels, i.blacklevels);
        println!("{:?} cfa {:?} crops {:?} {:?}", i.xyz_to_cam, i.cfa, i.crops, i.orientation);
        println!("len {}", i.data.len());
        let mut h: u64 = 0xcbf29ce484222325;
        for d in &i.data { h = (h ^ (*d as u64)).wrapping_mul(0x100000001b3); }
        println!("hash {:x}", h);
        if i.data.len() < 20000 { println!("{:?}", i.data); }
        for &(w, h) in sizes {
          match i.to_srgb(w, h) {
            Ok(d) => println!("{} {} {} {:?}", d.width, d.height, d.data.len(), d.data),
            Err(e) => println!("error {}", e),
          }
        }
      }
    }
  }
}
