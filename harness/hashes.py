"""Record the content of the compiled sources this framework was developed against."""
import hashlib
import json

from . import core

out = {str(f.relative_to(core.REPO)): hashlib.sha256(f.read_bytes()).hexdigest()
       for f in core.compiled_sources()}
(core.VERIF / "harness" / "source_hashes.json").write_text(json.dumps(out, indent=1) + "\n")
