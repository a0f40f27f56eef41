pub fn username() -> String { "verif".into() }
