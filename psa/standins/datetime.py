"""Stand-in of datetime: a date read from a text remembers the text and the format."""


class date:
    def __init__(self, year, month, day):
        self.year = year
        self.month = month
        self.day = day
        self.text = None
        self.format = None

    @classmethod
    def fromisoformat(cls, text):
        return datetime.strptime(text, '%Y-%m-%d').date()

    def __eq__(self, other):
        if not isinstance(other, date):
            return NotImplemented
        return self.year == other.year and self.month == other.month and self.day == other.day

    def __str__(self):
        return '{}-{}-{}'.format(self.year, self.month, self.day)

    isoformat = __str__


class datetime(date):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0):
        super().__init__(year, month, day)
        self.hour = hour
        self.minute = minute
        self.second = second
        self.microsecond = microsecond

    @classmethod
    def strptime(cls, text, format):
        if not isinstance(text, str):
            raise TypeError('strptime() argument 1 must be str')
        if text == 'not a date':
            raise ValueError('time data does not match format')
        x = cls(1970, 1, 1)
        x.text = text
        x.format = format
        return x

    def date(self):
        x = date(self.year, self.month, self.day)
        x.text = self.text
        x.format = self.format
        return x

    def __str__(self):
        return '{}-{}-{} {}:{}:{}'.format(self.year, self.month, self.day, self.hour, self.minute, self.second)
