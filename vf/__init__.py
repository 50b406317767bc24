"""vf: a small contract verifier that runs the real functions of /repo symbolically."""
