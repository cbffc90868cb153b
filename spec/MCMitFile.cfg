SPECIFICATION Spec
CONSTANTS MaxN = 2
          Paths = {1}
INVARIANTS RoundTrip ShortRefused Lengths Bijection
