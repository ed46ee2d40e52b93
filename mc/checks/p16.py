"""splitting a calculation in jobs: enough samples, whole blocks, no larger jobs than allowed, no leakage."""
import copy
import itertools as it

from mc import outside

PROPERTY = "P16"
RULE = ("a case is (largest number of samples per job, block size); within it every (number of samples, overall number of "
        "samples) from 0 up to the bound is split, twice on the same object, interleaved with a second submission; "
        "non-trivial: more than one job is needed")
ASSUMPTIONS = ["larger numbers behave like the small ones (only integer division is involved); the default limit of "
               "100000 samples per job is explored around its multiples"]


def cases(tier):
    top = 6 if tier == "quick" else 9
    for limit, block in it.product(range(1, top + 1), range(1, top + 2)):
        yield {"limit": limit, "block": block, "n": list(range(0, 2 * top)), "overall": list(range(0, 3 * top))}
    for block in (1, 7, 1000, 99999, 100000, 100001):
        yield {"limit": None, "block": block, "n": [999, 1000, 99999, 100000, 100001, 250000],
               "overall": [0, 1, 1000, 99999, 100000, 100001, 199999, 200000, 200001, 1000000]}


def execute(case, obs):
    from pibronic.data import file_structure as fs
    from pibronic.server import job_boss
    cls = job_boss.PimcSubmissionClass
    limit0 = cls.MAX_SAMPLES_PER_JOB
    shell = outside.Shell(outside.slurm())
    with obs.tmp() as root, shell.installed():
        FS = fs.FileStructure(root, 1, 0)
        FS2 = fs.FileStructure(root, 2, 3)
        try:
            if case["limit"] is not None:
                cls.MAX_SAMPLES_PER_JOB = case["limit"]
            for n, overall in it.product(case["n"], case["overall"]):
                one(case["limit"] or limit0, case["block"], n, overall, FS, FS2, cls, obs)
        finally:
            cls.MAX_SAMPLES_PER_JOB = limit0
    obs.trace()


def one(limit, block, n, overall, FS, FS2, cls, obs):
    given = {"number_of_samples": n, "block_size": block, "number_of_samples_overall": overall,
             "temperature_list": [300.0, 250.0], "bead_list": [3], "extra": [1]}
    keep = copy.deepcopy(given)
    defaults = copy.deepcopy(cls.param_dict)
    job = cls(FS, given)
    other = cls(FS2, {"number_of_samples": 5 * block, "block_size": block, "id_data": 2, "id_rho": 3})
    possible = block <= n and block <= limit and n > 0
    for turn in range(2):
        try:
            job.setup_blocks_and_jobs()
        except Exception:
            obs.check(not possible, "a sensible request is accepted", limit=limit, block=block, n=n, overall=overall)
            obs.check(other.param_dict["number_of_samples"] == 5 * block and cls.param_dict == defaults,
                      "other submissions are not affected")
            obs.step()
            return
        obs.step()
        obs.check(possible, "a request that needs less than one block, or larger blocks than a job may have, is refused",
                  limit=limit, block=block, n=n, overall=overall)
        p = job.param_dict
        per_job, blocks, jobs = p["number_of_samples_per_job"], p["number_of_blocks"], job.n_jobs
        info = dict(limit=limit, block=block, n=n, overall=overall, per_job=per_job, blocks=blocks, jobs=jobs, turn=turn)
        obs.check(isinstance(jobs, int) and isinstance(per_job, int) and isinstance(blocks, int), "whole numbers", **info)
        obs.check(p["number_of_samples"] == per_job == blocks * block and p["block_size"] == block,
                  "a job draws whole blocks of the requested size", **info)
        obs.check(0 < per_job <= limit and per_job <= n, "a job is not larger than allowed or requested", **info)
        target = overall or n
        obs.check(jobs >= 1 and jobs * per_job >= target, "all the jobs together draw the requested samples", **info)
        obs.check(jobs == 1 or (jobs - 1) * per_job < target, "no more jobs than needed", **info)
        obs.check(per_job + block > min(n, limit), "no smaller jobs than needed", **info)
        obs.check(job.param_dict["number_of_samples_overall"] == target, "the overall number of samples is kept", **info)
        if jobs > 1:
            obs.nontriv(limit, block, n, overall)
    obs.check(cls.param_dict == defaults, "the defaults of the class are not changed")
    obs.check(given == keep, "the caller's parameters are not changed", given=given)
    obs.check(other.param_dict["number_of_samples"] == 5 * block and other.param_dict["id_data"] == 2
              and other.param_dict["path_rho"] == FS2.path_rho and job.param_dict["path_rho"] == FS.path_rho,
              "submissions do not share parameters")
    for name in ("temperature_list", "bead_list"):      # lists that are edited belong to one submission
        fresh = cls(FS)
        fresh.param_dict[name].append(7)
        obs.check(cls.param_dict == defaults and cls(FS2).param_dict[name] == defaults[name],
                  "a list of one submission is not shared with the others or the defaults", name=name)
        if cls.param_dict != defaults:
            cls.param_dict = defaults
    fresh = cls(FS)
    obs.check(fresh.param_dict["number_of_samples"] == defaults["number_of_samples"]
              and "extra" not in fresh.param_dict, "a new submission starts from the defaults")
    if possible:     # the same submission asks for more and less
        for more, size, total in ((3 * block, block, 7 * block), (n, block, 0), (n + block, block, n)):
            job.param_dict.update(number_of_samples=more, block_size=size, number_of_samples_overall=total)
            job.setup_blocks_and_jobs()
            p = job.param_dict
            per_job, target = p["number_of_samples_per_job"], total or more
            obs.check(per_job == min(more, limit) - min(more, limit) % size and p["number_of_blocks"] * size == per_job
                      and job.n_jobs == -(-target // per_job), "a changed request is split anew", asked=(more, size, total),
                      limit=limit, per_job=per_job, jobs=job.n_jobs)
            obs.step()
    obs.state(limit, block, n, overall)
