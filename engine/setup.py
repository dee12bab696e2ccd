"""Build the MIR driver and analyse the current tree once (checks redo what is missing)."""
import facts
w = facts.world('cli')
print('cli world: %d bodies' % len(w.bodies))
