"""An appliance declared twice in several steps, saved and loaded."""
from env import *

with guard(60):
    u = User("u")
    for _ in range(2):
        u.add_appliance(number=1, power=10, num_windows=1, func_time=20, name="fan").windows(window_1=[0, 300])
    uc = UseCase(users=[u])
    f = os.path.join(os.environ["TMPDIR"], "twice")
    uc.save(f)
    new = UseCase()
    new.load(f + ".xlsx")
    rec = dict(saved=len(u.App_list), loaded=len(new.users[0].App_list))
print(json.dumps(rec))
