//! One rank of an MPI job: all scenarios, one after the other.
mod scenarios;
use mpi::traits::*;
use subsweep::communication::MPI_UNIVERSE;

fn main() {
    let w = MPI_UNIVERSE.world();
    let (r, n) = (w.rank() as usize, w.size() as usize);
    let mut out = String::new();
    for (name, f) in scenarios::ALL {
        if n == 1 && name == "tags" {
            continue;
        }
        let s = f(r, n);
        MPI_UNIVERSE.barrier();
        out += &format!("{name}\t{r}\t{s}\n");
    }
    std::fs::write(format!("{}{r}", std::env::args().nth(1).unwrap()), out).unwrap();
    MPI_UNIVERSE.drop();
}
