//! The broker's static variables, as they are when a process starts: every execution begins with them.
//!
//! The symbols of the crate `sut` in the writable sections of this program are looked up once, their contents
//! saved, and put back before each execution. (Executions run in threads of their own, so thread locals are new
//! anyway.) What the variables owned on the heap is leaked, not freed.
use std::sync::OnceLock;

struct Area {
    at: usize,
    was: Vec<u8>,
}

static SAVED: OnceLock<Vec<Area>> = OnceLock::new();

#[repr(C)]
struct PhdrInfo {
    addr: usize,
}

extern "C" {
    fn dl_iterate_phdr(f: extern "C" fn(*const PhdrInfo, usize, *mut usize) -> i32, data: *mut usize) -> i32;
}

extern "C" fn first(info: *const PhdrInfo, _size: usize, data: *mut usize) -> i32 {
    // the program itself comes first
    unsafe { *data = (*info).addr };
    1
}

fn int(b: &[u8], at: usize, n: usize) -> Option<usize> {
    let mut v = [0u8; 8];
    v[..n].copy_from_slice(b.get(at..at + n)?);
    Some(u64::from_le_bytes(v) as usize)
}

/// Addresses and sizes of the broker's static variables in an ELF file.
fn find(elf: &[u8]) -> Option<Vec<(usize, usize)>> {
    let (shoff, shentsize, shnum, shstrndx) = (int(elf, 0x28, 8)?, int(elf, 0x3a, 2)?, int(elf, 0x3c, 2)?, int(elf, 0x3e, 2)?);
    let section = |i: usize| {
        let h = shoff + i * shentsize;
        // name, type, flags, offset, size, link
        Some((int(elf, h, 4)?, int(elf, h + 4, 4)?, int(elf, h + 8, 8)?, int(elf, h + 0x18, 8)?, int(elf, h + 0x20, 8)?, int(elf, h + 0x28, 4)?))
    };
    let text = |table: usize, at: usize| {
        let from = table + at;
        let len = elf.get(from..)?.iter().position(|x| *x == 0)?;
        std::str::from_utf8(&elf[from..from + len]).ok()
    };
    let names = section(shstrndx)?.3;
    let mut found = vec![];
    for i in 0..shnum {
        let (_, kind, _, off, size, link) = section(i)?;
        if kind != 2 {
            continue;
        }
        let strings = section(link)?.3;
        for s in (off..off + size).step_by(24) {
            let (name, info, shndx, value, len) = (int(elf, s, 4)?, int(elf, s + 4, 1)?, int(elf, s + 6, 2)?, int(elf, s + 8, 8)?, int(elf, s + 16, 8)?);
            if info & 15 != 1 || len == 0 || shndx == 0 || shndx >= shnum {
                continue;
            }
            let at = text(names, section(shndx)?.0)?;
            let writable = [".data", ".bss"].iter().any(|x| at == *x || (at.starts_with(x) && !at.starts_with(".data.rel")) && at.as_bytes()[x.len()] == b'.');
            if writable && text(strings, name)?.contains("_3sut") {
                found.push((value, len));
            }
        }
    }
    Some(found)
}

fn save() -> Vec<Area> {
    let mut base = 0;
    unsafe { dl_iterate_phdr(first, &mut base) };
    let Some(found) = std::fs::read("/proc/self/exe").ok().and_then(|x| find(&x)) else { return vec![] };
    found
        .into_iter()
        .map(|(at, len)| {
            let at = base + at;
            let was = (0..len).map(|i| unsafe { std::ptr::read_volatile((at + i) as *const u8) }).collect();
            Area { at, was }
        })
        .collect()
}

/// How many there are. To be called before the first execution.
pub fn init() -> usize {
    SAVED.get_or_init(save).len()
}

pub fn reset() {
    for a in SAVED.get_or_init(save) {
        for (i, b) in a.was.iter().enumerate() {
            unsafe { std::ptr::write_volatile((a.at + i) as *mut u8, *b) };
        }
    }
}
