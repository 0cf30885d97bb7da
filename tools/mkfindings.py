import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {"d0fa40c":"C16", "cc65e80":"C16", "408354a":"C16", "e9da568":"C14", "401c45b":"C14", "61d2563":"C16", "fff9d44":"C16", "4fa302d":"C16", "25d4822":"C16", "eeb8b2d":"C16", "a5ade86":"C16", "f4078d1":"C16", "cd1167e":"C01", "27fb344":"C16", "8be28ef":"C16", "db2b74b":"C16", "54fb46e":"C16", "f7d81d2":"C16", "9111ff1":"C16", "46e8e7a":"C16", "e38352c":"C16", "7906b7f":"C16", "676a01e":"C05", "4550e35":"C17","15b504c":"C17","69e9e5a":"C17","8191afa":"C17","fb7bafc":"C17","6c40363":"C18","da21aa7":"C14","86a38ba":"C14","615d45e":"C14","3b8d797":"C14","5c4c99c":"C14","469b23b":"C11","02ac843":"C11","5c9d242":"C15","8fd1076":"C09","0678e97":"C09","2679b75":"C09","de6ac3d":"C10","f7da997":"C06","5257485":"C15","766e880":"C06","5663206":"C05","51722a2":"C06","a765a1c":"C08","05b4cac":"C18","ea647d9":"C10","9d593ba":"C10","73e828b":"C12","40d0f72":"C15","7d2da2d":"C10","c061edb":"C15","9fec2db":"C15","a7f74d0":"C09","f1f66ae":"C13","b8aa3f1":"C16","89080a2":"C16","d7cdd90":"C07","90b3a65":"C16","52463ac":"C11","760a0b8":"C17","fa3de96":"C16","13133e4":"C16","732b377":"C16","a31ae33":"C03","2f34456":"C12","13854e0":"C13","665ad35":"C13","12e733d":"C13","ff3ad32":"C13","0d53098":"C13"}
p = os.path.join(HERE, "known_findings.json")
d = [f for f in json.load(open(p))["findings"] if f["status"] == "known"]
for c, pid in M.items():
    s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", c], capture_output=True, text=True).stdout.strip()
    assert s.startswith("fix: "), (c, s)
    d.append({"property": pid, "key": c, "status": "fixed", "commit": c, "what": f"fixed: property={pid} {c} {s[5:]}"})
json.dump({"findings": d}, open(p, "w"), indent=1)
