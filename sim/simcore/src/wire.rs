//! A strict decoder for a stream of length-delimited io.prometheus.client.MetricFamily messages,
//! written from the protobuf wire format and metrics.proto alone.

#[derive(Debug, Default)]
pub struct PFamily {
    pub name: Option<String>,
    pub help: Option<String>,
    pub typ: Option<i32>,
    pub metrics: Vec<PMetric>,
}
#[derive(Debug, Default)]
pub struct PMetric {
    pub labels: Vec<(String, String)>,
    pub counter: Option<f64>,
    pub gauge: Option<f64>,
}

struct R<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> R<'a> {
    fn end(&self) -> bool {
        self.at == self.b.len()
    }
    fn varint(&mut self) -> Result<u64, String> {
        let mut v = 0u64;
        for i in 0..10 {
            let Some(x) = self.b.get(self.at) else { return Err(format!("varint cut short at byte {}", self.at)) };
            self.at += 1;
            if i == 9 && *x > 1 {
                return Err("varint overflows 64 bits".into());
            }
            v |= ((x & 0x7f) as u64) << (7 * i);
            if x & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err("varint longer than 10 bytes".into())
    }
    fn bytes(&mut self) -> Result<&'a [u8], String> {
        let n = self.varint()?;
        let left = self.b.len() - self.at;
        if n > left as u64 {
            return Err(format!("length {n} at byte {} exceeds the {left} bytes left", self.at));
        }
        let s = &self.b[self.at..self.at + n as usize];
        self.at += n as usize;
        Ok(s)
    }
    fn string(&mut self) -> Result<String, String> {
        String::from_utf8(self.bytes()?.to_vec()).map_err(|_| "string is not UTF-8".to_string())
    }
    fn double(&mut self) -> Result<f64, String> {
        if self.b.len() - self.at < 8 {
            return Err("double cut short".into());
        }
        let mut x = [0; 8];
        x.copy_from_slice(&self.b[self.at..self.at + 8]);
        self.at += 8;
        Ok(f64::from_le_bytes(x))
    }
    /// (field number, wire type)
    fn key(&mut self) -> Result<(u64, u64), String> {
        let k = self.varint()?;
        if k >> 3 == 0 || k >> 32 != 0 {
            return Err(format!("invalid field key {k}"));
        }
        Ok((k >> 3, k & 7))
    }
}

fn value(b: &[u8], what: &str) -> Result<f64, String> {
    let mut r = R { b, at: 0 };
    let mut v = None;
    while !r.end() {
        match r.key()? {
            (1, 1) => v = Some(r.double()?),
            k => return Err(format!("unexpected field {k:?} in {what}")),
        }
    }
    v.ok_or_else(|| format!("{what} without a value"))
}
fn label(b: &[u8]) -> Result<(String, String), String> {
    let mut r = R { b, at: 0 };
    let (mut n, mut v) = (None, None);
    while !r.end() {
        match r.key()? {
            (1, 2) => n = Some(r.string()?),
            (2, 2) => v = Some(r.string()?),
            k => return Err(format!("unexpected field {k:?} in a label pair")),
        }
    }
    Ok((n.ok_or("label without a name")?, v.unwrap_or_default()))
}
fn metric(b: &[u8]) -> Result<PMetric, String> {
    let mut r = R { b, at: 0 };
    let mut m = PMetric::default();
    while !r.end() {
        match r.key()? {
            (1, 2) => {
                let l = label(r.bytes()?)?;
                if m.labels.iter().any(|x| x.0 == l.0) {
                    return Err(format!("label {} twice", l.0));
                }
                m.labels.push(l);
            }
            (2, 2) => m.gauge = Some(value(r.bytes()?, "gauge")?),
            (3, 2) => m.counter = Some(value(r.bytes()?, "counter")?),
            k => return Err(format!("unexpected field {k:?} in a metric")),
        }
    }
    Ok(m)
}
pub fn decode(b: &[u8]) -> Result<Vec<PFamily>, String> {
    let mut r = R { b, at: 0 };
    let mut out = vec![];
    while !r.end() {
        let start = r.at;
        let mut f = R { b: r.bytes().map_err(|e| format!("message at byte {start}: {e}"))?, at: 0 };
        let mut fam = PFamily::default();
        while !f.end() {
            let res = (|| -> Result<(), String> {
                match f.key()? {
                    (1, 2) => fam.name = Some(f.string()?),
                    (2, 2) => fam.help = Some(f.string()?),
                    (3, 0) => fam.typ = Some(f.varint()? as i32),
                    (4, 2) => fam.metrics.push(metric(f.bytes()?)?),
                    k => return Err(format!("unexpected field {k:?} in a family")),
                }
                Ok(())
            })();
            res.map_err(|e| format!("family {} (message at byte {start}): {e}", out.len()))?;
        }
        out.push(fam);
    }
    Ok(out)
}
