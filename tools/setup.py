"""Parse every specification once (fails when a module does not parse)."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
spec = os.path.join(HERE, "spec")
mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(spec, "*.tla")))
p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", *mods], cwd=spec, capture_output=True, text=True)
bad = p.returncode != 0 or "*** Errors" in p.stdout or "Fatal errors" in p.stdout
print(p.stdout[-2000:] if bad else f"{len(mods)} specification modules parse")
sys.exit(1 if bad else 0)
