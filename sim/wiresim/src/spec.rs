//! Parameters of the generated schemas; shared by the build script and the simulator.

pub fn models(seed: u64) -> [wiremodel::Model; 2] {
    [wiremodel::model(seed, false, 4, 18, 8), wiremodel::model(seed ^ 0xb17e5, true, 2, 14, 2)]
}
