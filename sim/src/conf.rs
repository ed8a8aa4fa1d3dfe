//! Configuration files given to the library.  They are the only real files the
//! library reads; databases live on the simulated disk.
pub const DIR: &str = "/tmp/ksim.d";

fn content(name: &str) -> String {
    let sq = |n: u32| {
        format!("[[slots]]\nslot = {n}\ndbtype = \"sqlite\"\ndbargs = \"/sim/tok{n}.sql\"\n")
    };
    let nss = |n: u32| {
        format!("[[slots]]\nslot = {n}\ndbtype = \"nssdb\"\ndbargs = \"configDir={DIR}\"\n")
    };
    match name {
        "sq" => sq(1),
        "two" => sq(1) + "\n" + &sq(2),
        "nss" => nss(1),
        "mix" => sq(1) + "\n" + &nss(2),
        // the second slot cannot be opened
        "bad" => {
            sq(1) + "\n[[slots]]\nslot = 2\ndbtype = \"nssdb\"\ndbargs = \"configDir=/tmp/ksim.d/none\"\n"
        }
        // a new object replaces the one of the same identity
        "dd" => sq(1) + "objects_dedup = \"All\"\n",
        "dc" => sq(1) + "objects_dedup = \"TrustAndCertificates\"\n",
        "dt" => sq(1) + "objects_dedup = \"TrustOnly\"\n",
        "ddn" => nss(1) + "objects_dedup = \"All\"\n",
        _ => panic!("no configuration {name}"),
    }
}

pub fn path(name: &str) -> String {
    format!("{DIR}/{name}.toml")
}

pub fn setup() {
    let _ = std::fs::create_dir_all(DIR);
    for n in ["sq", "two", "nss", "mix", "bad", "dd", "dc", "dt", "ddn"] {
        let p = path(n);
        let c = content(n);
        if std::fs::read_to_string(&p).ok().as_deref() == Some(&c) {
            continue;
        }
        let t = format!("{p}.{}", std::process::id());
        std::fs::write(&t, &c).expect("cannot write configuration");
        std::fs::rename(&t, &p).expect("cannot write configuration");
    }
}

/// database files of a slot of this configuration
pub fn db(name: &str, slot: u64) -> Vec<String> {
    match (name, slot) {
        ("nss" | "ddn", 1) | ("mix", 2) => vec![format!("{DIR}/cert9.db"), format!("{DIR}/key4.db")],
        _ => vec![format!("/sim/tok{slot}.sql")],
    }
}
