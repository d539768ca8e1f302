# per-property wording for MANIFEST.json (read by gen_manifest.py)

