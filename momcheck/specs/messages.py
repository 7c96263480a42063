"""When coordinates are made up from the axes"""


def made_up(arr, xname, yname):
    return len(arr[xname].shape) == 1
