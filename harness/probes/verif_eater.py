from harness.probes.verif_payload import VerifEater  # noqa: F401
