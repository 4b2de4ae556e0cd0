------------------------------ MODULE StopList ------------------------------
(* The built-in list of stopwords, as sequences of bytes.                      *)
BuiltIn == {
  <<97>>, \* a
  <<97, 98, 111, 117, 116>>, \* about
  <<97, 102, 116, 101, 114>>, \* after
  <<97, 108, 108>>, \* all
  <<97, 108, 115, 111>>, \* also
  <<97, 110>>, \* an
  <<97, 110, 100>>, \* and
  <<97, 110, 121>>, \* any
  <<97, 114, 101>>, \* are
  <<97, 115>>, \* as
  <<97, 116>>, \* at
  <<98, 97, 99, 107>>, \* back
  <<98, 101>>, \* be
  <<98, 101, 99, 97, 117, 115, 101>>, \* because
  <<98, 101, 101, 110>>, \* been
  <<98, 117, 116>>, \* but
  <<98, 121>>, \* by
  <<99, 97, 110>>, \* can
  <<99, 111, 117, 108, 100>>, \* could
  <<100, 105, 100>>, \* did
  <<100, 111>>, \* do
  <<100, 111, 101, 115>>, \* does
  <<100, 111, 119, 110>>, \* down
  <<101, 97, 99, 104>>, \* each
  <<102, 105, 114, 115, 116>>, \* first
  <<102, 111, 114>>, \* for
  <<102, 114, 111, 109>>, \* from
  <<103, 101, 116>>, \* get
  <<103, 111, 111, 100>>, \* good
  <<104, 97, 100>>, \* had
  <<104, 97, 115>>, \* has
  <<104, 97, 118, 101>>, \* have
  <<104, 101>>, \* he
  <<104, 101, 114>>, \* her
  <<104, 105, 109>>, \* him
  <<104, 105, 115>>, \* his
  <<104, 111, 119>>, \* how
  <<105>>, \* i
  <<105, 102>>, \* if
  <<105, 110>>, \* in
  <<105, 110, 116, 111>>, \* into
  <<105, 115>>, \* is
  <<105, 116>>, \* it
  <<105, 116, 115>>, \* its
  <<106, 117, 115, 116>>, \* just
  <<107, 110, 111, 119>>, \* know
  <<108, 105, 107, 101>>, \* like
  <<108, 105, 116, 116, 108, 101>>, \* little
  <<108, 111, 110, 103>>, \* long
  <<109, 97, 100, 101>>, \* made
  <<109, 97, 107, 101>>, \* make
  <<109, 97, 110>>, \* man
  <<109, 97, 110, 121>>, \* many
  <<109, 97, 121>>, \* may
  <<109, 101>>, \* me
  <<109, 111, 114, 101>>, \* more
  <<109, 111, 115, 116>>, \* most
  <<109, 121>>, \* my
  <<110, 101, 119>>, \* new
  <<110, 111>>, \* no
  <<110, 111, 116>>, \* not
  <<110, 111, 119>>, \* now
  <<111, 102>>, \* of
  <<111, 110>>, \* on
  <<111, 110, 101>>, \* one
  <<111, 110, 108, 121>>, \* only
  <<111, 114>>, \* or
  <<111, 116, 104, 101, 114>>, \* other
  <<111, 117, 114>>, \* our
  <<111, 117, 116>>, \* out
  <<111, 118, 101, 114>>, \* over
  <<115, 97, 105, 100>>, \* said
  <<115, 97, 109, 101>>, \* same
  <<115, 101, 101>>, \* see
  <<115, 104, 101>>, \* she
  <<115, 111>>, \* so
  <<115, 111, 109, 101>>, \* some
  <<116, 104, 97, 110>>, \* than
  <<116, 104, 97, 116>>, \* that
  <<116, 104, 101>>, \* the
  <<116, 104, 101, 105, 114>>, \* their
  <<116, 104, 101, 109>>, \* them
  <<116, 104, 101, 110>>, \* then
  <<116, 104, 101, 114, 101>>, \* there
  <<116, 104, 101, 115, 101>>, \* these
  <<116, 104, 101, 121>>, \* they
  <<116, 104, 105, 115>>, \* this
  <<116, 111>>, \* to
  <<116, 111, 111>>, \* too
  <<116, 119, 111>>, \* two
  <<117, 112>>, \* up
  <<117, 115>>, \* us
  <<117, 115, 101, 100>>, \* used
  <<118, 101, 114, 121>>, \* very
  <<119, 97, 115>>, \* was
  <<119, 97, 121>>, \* way
  <<119, 101>>, \* we
  <<119, 101, 114, 101>>, \* were
  <<119, 104, 97, 116>>, \* what
  <<119, 104, 101, 110>>, \* when
  <<119, 104, 101, 114, 101>>, \* where
  <<119, 104, 105, 99, 104>>, \* which
  <<119, 104, 111>>, \* who
  <<119, 104, 121>>, \* why
  <<119, 105, 108, 108>>, \* will
  <<119, 105, 116, 104>>, \* with
  <<119, 111, 109, 97, 110>>, \* woman
  <<119, 111, 117, 108, 100>>, \* would
  <<121, 111, 117>>, \* you
  <<121, 111, 117, 114>>  \* your
}
=============================================================================
