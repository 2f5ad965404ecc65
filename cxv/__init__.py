"""cxv: contract verifier for the C++ in /repo.  See DESIGN.md."""
