"""Reference calendar: Julian until 1582, Gregorian afterwards (extended precision)."""
import numpy as np

LD = np.longdouble


def year_start(year):
    """ MJD2000 of January 1st """
    year = np.asarray(year, dtype=np.int64)
    last = year - 1
    gregorian = 365 * last + last // 4 - last // 100 + last // 400 - 730119
    julian = 365 * (year - 2000) + last // 4 - 499 + 13
    return np.where(year <= 1582, julian, gregorian)


def year_length(year):
    """ days per year (the days dropped in 1582 are not reflected) """
    year = np.asarray(year, dtype=np.int64)
    leap = (year % 4 == 0) & ((year <= 1582) | (year % 100 != 0) | (year % 400 == 0))
    return 365 + leap


def year_of(mjd):
    """ calendar year of the MJD2000 """
    mjd = np.asarray(mjd, LD)
    year = np.floor(mjd / LD("365.2425")).astype(np.int64) + 2000
    # the estimate is off by more years in the far past because of the Julian calendar
    year = np.where(year < 1583, np.floor((mjd - 13) / LD("365.25")).astype(np.int64) + 2000, year)
    for _ in range(4):
        year = np.where(year_start(year) > mjd, year - 1, year)
        year = np.where(year_start(year + 1) <= mjd, year + 1, year)
    return year


def to_year(mjd):
    """ (year, fraction) """
    mjd = np.asarray(mjd, LD)
    year = year_of(mjd)
    return year, (mjd - year_start(year)) / year_length(year)


def to_decimal_year(mjd):
    """ decimal year """
    year, fraction = to_year(mjd)
    return year.astype(LD) + fraction


def to_mjd(decimal_year):
    """ MJD2000 of the decimal year """
    decimal_year = np.asarray(decimal_year, LD)
    year = np.floor(decimal_year)
    whole = year.astype(np.int64)
    return year_start(whole) + (decimal_year - year) * year_length(whole)
