// Driver plumbing: the current case is kept in a shared mapping so that it survives a crash or a
// hang of the code under test.
use std::io::Write;
pub struct Ctx { pub rng: u64, pub deadline: std::time::Instant, pub cases: u64, map: *mut u8, pub prop: String, run: fn(&str, &[i64], &[u8]) -> Result<(), String> }
const MAPLEN: usize = 1 << 26;
impl Ctx {
    pub fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    pub fn below(&mut self, n: usize) -> usize { (self.rnd() % n as u64) as usize }
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T { let i = self.below(a.len()); &a[i] }
    pub fn late(&self) -> bool { self.cases & 63 == 0 && std::time::Instant::now() > self.deadline }
    // runs one case; a divergence ends the driver
    pub fn case(&mut self, params: &[i64], bytes: &[u8]) {
        self.cases += 1;
        unsafe {
            let m = self.map;
            *(m as *mut u64) = params.len() as u64;
            *(m as *mut u64).add(1) = bytes.len() as u64;
            std::ptr::copy_nonoverlapping(params.as_ptr() as *const u8, m.add(16), params.len() * 8);
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), m.add(16 + params.len() * 8), bytes.len());
        }
        let f = self.run;
        let p = self.prop.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&p, params, bytes)));
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(e) => format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        println!("FAIL {}", msg.replace('\n', " "));
        std::io::stdout().flush().ok();
        if std::env::var("VDRV_ALL").is_ok() { return }
        std::process::exit(3);
    }
}
pub fn main(run: fn(&str, &[i64], &[u8]) -> Result<(), String>, search: fn(&mut Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    let quiet = std::env::var("VDRV_PANIC").is_err();
    if quiet { std::panic::set_hook(Box::new(|_| ())); }
    // vdrv PROP SEED BUDGET_MS CASEFILE   |   vdrv PROP replay CASEFILE
    use std::os::unix::io::AsRawFd;
    let path = a.last().unwrap();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    if a[2] == "replay" {
        let b = std::fs::read(path).unwrap();
        let rd = |i: usize| { let mut x = [0u8; 8]; x.copy_from_slice(&b[i..i + 8]); i64::from_le_bytes(x) };
        let n = rd(0) as usize;
        let l = rd(8) as usize;
        let ps: Vec<i64> = (0..n).map(|k| rd(16 + 8 * k)).collect();
        let by = b[16 + 8 * n..16 + 8 * n + l].to_vec();
        let p = a[1].clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&p, &ps, &by)));
        match r { Ok(Ok(())) => println!("OK"), Ok(Err(e)) => { println!("FAIL {}", e); std::process::exit(3) } Err(_) => { println!("FAIL panic"); std::process::exit(3) } }
        return;
    }
    f.set_len(MAPLEN as u64).unwrap();
    let map = unsafe { libc::mmap(std::ptr::null_mut(), MAPLEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) } as *mut u8;
    let seed: u64 = a[2].parse().unwrap();
    let ms: u64 = a[3].parse().unwrap();
    let mut c = Ctx { rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, deadline: std::time::Instant::now() + std::time::Duration::from_millis(ms), cases: 0, map, prop: a[1].clone(), run };
    search(&mut c);
    println!("OK {}", c.cases);
}
