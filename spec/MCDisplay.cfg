SPECIFICATION Spec
CONSTANTS Points = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 31, 33, 47, 48, 65, 97, 100, 161, 191, 255, 600, 769, 1000, 2000, 3000, 3500, 4095, 4096, 5000, 30000, 60000, 69632, 69633}
          Circled = {60, 62, 48, 49, 92, 110, 1, 10, 9676, 769}
          Damage = TRUE
INVARIANTS ReadBack InBounds Distinct
PROPERTY Ends
CHECK_DEADLOCK FALSE
