//! Independent reference checksums.
#[derive(Clone)]
pub struct Adler(u32, u32);
impl Adler {
    pub fn new() -> Adler {
        Adler(1, 0)
    }
    pub fn update(&mut self, d: &[u8]) {
        let (mut a, mut b) = (self.0, self.1);
        for c in d.chunks(3800) {
            for &x in c {
                a += x as u32;
                b += a;
            }
            a %= 65521;
            b %= 65521;
        }
        self.0 = a;
        self.1 = b;
    }
    pub fn sum(&self) -> u32 {
        (self.1 << 16) | self.0
    }
}

const fn table() -> [[u32; 256]; 8] {
    let mut t = [[0u32; 256]; 8];
    let mut n = 0;
    while n < 256 {
        let mut c = n as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            k += 1;
        }
        t[0][n] = c;
        n += 1;
    }
    let mut k = 1;
    while k < 8 {
        let mut n = 0;
        while n < 256 {
            t[k][n] = (t[k - 1][n] >> 8) ^ t[0][(t[k - 1][n] & 0xFF) as usize];
            n += 1;
        }
        k += 1;
    }
    t
}
static T: [[u32; 256]; 8] = table();

#[derive(Clone)]
pub struct Crc(u32);
impl Crc {
    pub fn new() -> Crc {
        Crc(!0)
    }
    pub fn update(&mut self, d: &[u8]) {
        let mut c = self.0;
        let mut it = d.chunks_exact(8);
        for ch in &mut it {
            let lo = u32::from_le_bytes([ch[0], ch[1], ch[2], ch[3]]) ^ c;
            c = T[7][(lo & 255) as usize]
                ^ T[6][(lo >> 8 & 255) as usize]
                ^ T[5][(lo >> 16 & 255) as usize]
                ^ T[4][(lo >> 24) as usize]
                ^ T[3][ch[4] as usize]
                ^ T[2][ch[5] as usize]
                ^ T[1][ch[6] as usize]
                ^ T[0][ch[7] as usize];
        }
        for &x in it.remainder() {
            c = T[0][((c ^ x as u32) & 255) as usize] ^ (c >> 8);
        }
        self.0 = c;
    }
    pub fn sum(&self) -> u32 {
        !self.0
    }
}
