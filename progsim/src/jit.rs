//! Loads the object file the compiler produced into this (forked) process and links it against the
//! instrumented runtime, the way the system linker would.
use std::collections::HashMap;

macro_rules! syms {
    ($($n:ident)*) => {
        #[allow(clashing_extern_declarations)]
        unsafe extern "C" { $( fn $n(); )* }
        fn runtime(name: &str) -> Option<usize> {
            match name { $( stringify!($n) => Some($n as *const () as usize), )* _ => None }
        }
    };
}
include!(concat!(env!("OUT_DIR"), "/rtsyms.rs"));

unsafe extern "C" fn c_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    unsafe { std::ptr::copy(s, d, n) };
    d
}
unsafe extern "C" fn c_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    unsafe { std::ptr::write_bytes(d, v as u8, n) };
    d
}
fn external(name: &str) -> Option<usize> {
    Some(match name {
        "memcpy" | "memmove" => c_memcpy as *const () as usize,
        "memset" => c_memset as *const () as usize,
        "verif_trace_i32" => crate::irsim::trace_i32 as *const () as usize,
        "verif_trace_i64" => crate::irsim::trace_i64 as *const () as usize,
        "verif_trace_f64" => crate::irsim::trace_f64 as *const () as usize,
        n => return runtime(n),
    })
}
fn u16a(b: &[u8], o: usize) -> usize {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize
}
fn u32a(b: &[u8], o: usize) -> usize {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize
}
fn u64a(b: &[u8], o: usize) -> usize {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize
}
fn cstr(b: &[u8], o: usize) -> &str {
    let e = b[o..].iter().position(|&c| c == 0).unwrap();
    std::str::from_utf8(&b[o..o + e]).unwrap()
}
pub struct Image {
    pub syms: HashMap<String, usize>,
}
const BASE: usize = 0x1000_0000_0000;

/// Err: the object cannot be linked (what a user would see as a link failure).
pub fn load(o: &[u8]) -> Result<Image, String> {
    if o.len() < 64 || &o[..4] != b"\x7fELF" || u16a(o, 16) != 1 || u16a(o, 18) != 62 {
        return Err("not a relocatable x86-64 ELF object".into());
    }
    let (shoff, shn) = (u64a(o, 40), u16a(o, 60));
    let sh = |i: usize| shoff + i * 64;
    // place sections
    let mut at = vec![0usize; shn];
    let mut pos = BASE;
    let mut code_end = BASE;
    for pass in 0..2 {
        for i in 0..shn {
            let h = sh(i);
            let (ty, fl, size, al) = (u32a(o, h + 4), u64a(o, h + 8), u64a(o, h + 32), u64a(o, h + 48).max(1));
            let exec = fl & 4 != 0;
            if fl & 2 == 0 || (pass == 0) != exec || !(ty == 1 || ty == 8 || ty == 14) {
                continue;
            }
            pos = pos.div_ceil(al) * al;
            at[i] = pos;
            pos += size;
        }
        pos = pos.div_ceil(4096) * 4096;
        if pass == 0 {
            code_end = pos;
        }
    }
    // symbols
    let symtab = (0..shn).find(|&i| u32a(o, sh(i) + 4) == 2).ok_or("no symbol table")?;
    let (so, ss, strs) = (u64a(o, sh(symtab) + 24), u64a(o, sh(symtab) + 32), u64a(o, sh(u32a(o, sh(symtab) + 40)) + 24));
    let n = ss / 24;
    let mut addr = vec![0usize; n];
    let mut undef = vec![false; n];
    let mut syms = HashMap::new();
    for i in 0..n {
        let e = so + i * 24;
        let (name, info, shndx, val) = (cstr(o, strs + u32a(o, e)), o[e + 4], u16a(o, e + 6), u64a(o, e + 8));
        if shndx == 0 {
            if i > 0 && !name.is_empty() {
                undef[i] = true;
                addr[i] = external(name).unwrap_or(0);
            }
        } else if shndx < shn {
            addr[i] = at[shndx] + val;
            if info >> 4 != 0 && syms.insert(name.to_string(), addr[i]).is_some() {
                return Err(format!("duplicate symbol {name}"));
            }
            if info >> 4 != 0 && external(name).is_some() {
                return Err(format!("symbol {name} also defined by the runtime"));
            }
        }
    }
    let got = pos;
    let plt = got + n * 8;
    let end = (plt + n * 16).div_ceil(4096) * 4096;
    unsafe {
        let p = libc::mmap(BASE as *mut _, end - BASE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != BASE {
            simcore::runner::harness_error("cannot map the program image");
        }
        for i in 0..shn {
            if at[i] != 0 && u32a(o, sh(i) + 4) != 8 {
                let (off, size) = (u64a(o, sh(i) + 24), u64a(o, sh(i) + 32));
                std::ptr::copy_nonoverlapping(o[off..].as_ptr(), at[i] as *mut u8, size);
            }
        }
        for i in 0..n {
            *((got + i * 8) as *mut usize) = addr[i];
            let q = (plt + i * 16) as *mut u8;
            // movabs r11, addr ; jmp r11
            q.write(0x49);
            q.add(1).write(0xBB);
            (q.add(2) as *mut usize).write_unaligned(addr[i]);
            q.add(10).write(0x41);
            q.add(11).write(0xFF);
            q.add(12).write(0xE3);
        }
        for r in 0..shn {
            if u32a(o, sh(r) + 4) != 4 {
                continue;
            }
            let (ro, rs, target) = (u64a(o, sh(r) + 24), u64a(o, sh(r) + 32), u32a(o, sh(r) + 44));
            if at[target] == 0 {
                continue;
            }
            for k in 0..rs / 24 {
                let e = ro + k * 24;
                let (off, info, add) = (u64a(o, e), u64a(o, e + 8), u64a(o, e + 16) as i64);
                let (ty, s) = (info & 0xffff_ffff, info >> 32);
                if undef[s] && addr[s] == 0 {
                    let en = so + s * 24;
                    return Err(format!("undefined symbol {}", cstr(o, strs + u32a(o, en))));
                }
                let place = at[target] + off;
                let rel = |t: usize| t as i64 + add - place as i64;
                match ty {
                    1 => (place as *mut i64).write_unaligned(addr[s] as i64 + add),
                    2 => (place as *mut i32).write_unaligned(rel(addr[s]) as i32),
                    4 => {
                        let t = if undef[s] { plt + s * 16 } else { addr[s] };
                        (place as *mut i32).write_unaligned(rel(t) as i32)
                    }
                    9 | 41 | 42 => (place as *mut i32).write_unaligned(rel(got + s * 8) as i32),
                    t => return Err(format!("relocation type {t} not supported by the loader")),
                }
            }
        }
        libc::mprotect(BASE as *mut _, code_end - BASE, libc::PROT_READ | libc::PROT_EXEC);
        libc::mprotect((plt & !4095) as *mut _, end - (plt & !4095), libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC);
    }
    Ok(Image { syms })
}
pub fn in_image(ip: usize) -> bool {
    (BASE..BASE + (1 << 32)).contains(&ip)
}
