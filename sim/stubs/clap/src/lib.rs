//! `clap` with the arguments of the simulated process.
pub use real_clap::*;

fn args() -> Vec<String> {
    simrt::args().expect("no simulated command line")
}
pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        match Self::try_parse() {
            Ok(x) => x,
            Err(e) => panic!("{e}"),
        }
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(args())
    }
    fn parse_from<I, T>(i: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        match Self::try_parse_from(i) {
            Ok(x) => x,
            Err(e) => panic!("{e}"),
        }
    }
    fn try_parse_from<I, T>(i: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        let mut m = <Self as CommandFactory>::command().try_get_matches_from(i)?;
        <Self as FromArgMatches>::from_arg_matches_mut(&mut m).map_err(|e| e.format(&mut Self::command()))
    }
}
