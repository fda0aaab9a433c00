"""The set median of strings"""


@of("daeso.string.median.set_median_string", props=["C63"], hints={"dist_func()": "f"})
def median(strings, dist_func):
    total = [0] * len(strings)
    for i in range(len(strings)):
        for j in range(i):
            d = dist_func(strings[i], strings[j])
            total[i] += d
            total[j] += d
    best = 0
    least = total[best]
    for j in range(1, len(total)):
        if total[j] < least:
            least = total[j]
            best = j
    return strings[best]
