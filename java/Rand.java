import tlc2.value.impl.*;

/** TLC override of module Rand: a fixed hash, so that sampled choices are pure functions of the seed. */
public class Rand {
    static int mix(int a, int b) {
        long z = (a * 0x9E3779B97F4A7C15L) ^ ((long) b * 0xC2B2AE3D27D4EB4FL) ^ 0x165667B19E3779F9L;
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        z ^= z >>> 31;
        return (int) (z & 0x7fffffff);
    }
    public static Value Hash(Value k, Value i) {
        return IntValue.gen(mix(((IntValue) k).val, ((IntValue) i).val));
    }
    public static Value Pick(Value k, Value n) {
        return IntValue.gen(1 + mix(((IntValue) k).val, 77777) % ((IntValue) n).val);
    }
}
