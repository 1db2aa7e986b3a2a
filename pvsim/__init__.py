"""pvsim: deterministic simulation with fault injection for pvgridder."""
