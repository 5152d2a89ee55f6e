//! The export of the command line is out of the simulation.
