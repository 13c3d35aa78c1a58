package verif;

import tlc2.overrides.ITLCOverrides;

/**
 * Registers the accelerators. -Dverif.accel=none: TLC evaluates the TLA+ text of every operator;
 * kernel: only module Kernel is accelerated; all (default): everything is.
 */
public final class Overrides implements ITLCOverrides {
    @Override
    public Class<?>[] get() {
        String level = System.getProperty("verif.accel", "all");
        if (level.equals("none")) {
            return new Class<?>[0];
        }
        if (level.equals("kernel")) {
            return new Class<?>[] {Kernel.class};
        }
        return new Class<?>[] {Kernel.class, Blocks.class, Field.class};
    }
}
