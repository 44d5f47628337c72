#[path = "../../../mc/src/checks/world.rs"]
pub mod world;
pub mod c23;
pub mod c24;
pub mod c29;

pub fn run(id: &str) -> i32 {
    match id {
        "C23" => c23::run(),
        "C24" => c24::run("C24"),
        "C27" => c24::run("C27"),
        "C29" => c29::run(),
        _ => 2,
    }
}
/// Runs `f` in a child process (this process stays without threads).
pub fn in_child<T: serde::Serialize + serde::de::DeserializeOwned>(f: fn() -> Result<T, String>) -> Result<T, String> {
    let run = |_: &[u8]| serde_json::to_vec(&f()).unwrap();
    let mut farm = crate::engine::Farm::new(1, 600, &run);
    let mut once = Some(vec![]);
    let mut out = Err("nothing".to_string());
    farm.drive(
        || once.take().map(|b| ((), b)),
        |(), res| out = res.and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())?),
    );
    out
}
pub fn replay(id: &str, _f: &str) -> i32 {
    println!("the replay file names the sequence; run the check of {id} again to execute it");
    2
}
